package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/cacher"
)

func init() {
	register("C06", &checkDef{fn: checkC06, level: "exploration", minDistinct: 300,
		rule:  "random operation sequences (insert, overwrite, delete, exact/wrong/absent lookup, list, load, re-open) on storages of small random capacity with unrelated files planted; after every operation the listing, the files on disk and the capacity are compared; plus the real go-apt-cacher on a cache directory preloaded with sparse files around its GiB capacity. Non-trivial: a sequence in which eviction, overwrite or reload happened, keyed by its outcome",
		assum: []string{"one storage per directory; files are not changed by others"}})
	register("C07", &checkDef{fn: checkC07, level: "exploration", minDistinct: 300,
		rule:  "random operation sequences on storages compared with an LRU model after every operation (items present after a load count as equally old); plus the real go-apt-cacher with a preloaded cache. Non-trivial: an insert or load that evicted something, keyed by (items before, evicted)",
		assum: []string{"the relative age of items found on disk by a load is unspecified, all are older than later uses"}})
	register("C08", &checkDef{fn: checkC08, level: "exploration", minDistinct: 100, raceIsViolation: true,
		rule:  "short concurrent histories of insert/lookup/delete/list with unique contents, checked with porcupine against a sequential LRU storage model; longer stress runs with per-lookup content checks under the race detector. Non-trivial: distinct history (operation outcomes in call order) with overlapping operations",
		assum: []string{"reading FileInfo objects returned by ListAll while another goroutine triggers the delayed checksum calculation is not part of the workload"}})
}

// stModel is a sequential model of cacher.Storage with ties.
type stItem struct {
	data []byte
	rank int // 0: loaded
}

type stEnv struct {
	c      *Ctx
	rng    *rand.Rand
	dir    string
	cap    uint64
	st     *cacher.Storage
	items  map[string]*stItem
	clock  int
	extra  map[string][]byte // unrelated files
	trace  []string
	lru    bool // compare eviction with the model (C07)
	evicts int
	failed bool
}

func (e *stEnv) log(format string, a ...interface{}) {
	e.trace = append(e.trace, fmt.Sprintf(format, a...))
}

func (e *stEnv) violate(format string, a ...interface{}) {
	e.failed = true
	e.c.Violate(map[string]interface{}{"capacity": e.cap, "operations": e.trace}, format, a...)
}

func (e *stEnv) onDisk() map[string]int64 {
	m := map[string]int64{}
	filepath.Walk(e.dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			rel, _ := filepath.Rel(e.dir, p)
			m[rel] = info.Size()
		}
		return nil
	})
	return m
}

// audit compares the books with the disk.
func (e *stEnv) audit(op string) {
	if e.failed {
		return
	}
	disk := e.onDisk()
	var total uint64
	files := map[string]int64{}
	for p, n := range disk {
		if _, ok := e.extra[p]; ok {
			continue
		}
		if strings.HasSuffix(p, ".cache") {
			total += uint64(n)
			files[strings.TrimSuffix(p, ".cache")] = n
			continue
		}
		e.violate("after %s: leftover file %q", op, p)
		return
	}
	for p, d := range e.extra {
		b, err := os.ReadFile(filepath.Join(e.dir, p))
		if err != nil || !bytes.Equal(b, d) {
			e.violate("after %s: unrelated file %q was changed or removed", op, p)
			return
		}
	}
	if e.cap > 0 && total > e.cap {
		e.violate("after %s: %d bytes on disk exceed the capacity of %d", op, total, e.cap)
		return
	}
	seen := map[string]bool{}
	for _, fi := range e.st.ListAll() {
		n, ok := files[fi.Path()]
		switch {
		case seen[fi.Path()]:
			e.violate("after %s: %q is listed twice", op, fi.Path())
			return
		case !ok:
			e.violate("after %s: %q is listed but has no file", op, fi.Path())
			return
		case uint64(n) != fi.Size():
			e.violate("after %s: %q is listed with %d bytes, its file has %d", op, fi.Path(), fi.Size(), n)
			return
		}
		seen[fi.Path()] = true
	}
	for p := range files {
		if !seen[p] {
			e.violate("after %s: file of %q is on disk but not listed", op, p)
			return
		}
	}
	e.c.Count("audits", 1)
}

func (e *stEnv) listed() map[string]bool {
	m := map[string]bool{}
	for _, fi := range e.st.ListAll() {
		m[fi.Path()] = true
	}
	return m
}

// settle compares what remains with the LRU model (if lru), then adopts it.
func (e *stEnv) settle(op string) {
	if e.failed {
		return
	}
	got := e.listed()
	var total uint64
	for _, it := range e.items {
		total += uint64(len(it.data))
	}
	var ev []string
	for p := range e.items {
		if !got[p] {
			ev = append(ev, p)
		}
	}
	sort.Strings(ev)
	for p := range got {
		if e.items[p] == nil {
			e.violate("after %s: %q is listed although it was never inserted, or was deleted", op, p)
			return
		}
	}
	if len(ev) > 0 {
		e.evicts++
	}
	if e.lru {
		evSet := map[string]bool{}
		maxRank, rest := -1, total
		for _, p := range ev {
			evSet[p] = true
			rest -= uint64(len(e.items[p].data))
			if e.items[p].rank > maxRank {
				maxRank = e.items[p].rank
			}
		}
		describe := func() string {
			var l []string
			for p, it := range e.items {
				l = append(l, fmt.Sprintf("%s(%d bytes, rank %d, evicted %v)", p, len(it.data), it.rank, evSet[p]))
			}
			sort.Strings(l)
			return strings.Join(l, ", ")
		}
		if e.cap == 0 && len(ev) > 0 {
			e.violate("after %s: %v evicted from a storage without capacity limit", op, ev)
			return
		}
		if e.cap > 0 && rest > e.cap {
			e.violate("after %s: eviction stopped too early (%d > %d)", op, rest, e.cap)
			return
		}
		for p, it := range e.items {
			if !evSet[p] && it.rank < maxRank {
				e.violate("after %s: %q was kept although more recently used items were evicted: %s", op, p, describe())
				return
			}
		}
		if len(ev) > 0 {
			ok := false
			for _, p := range ev {
				if e.items[p].rank == maxRank && rest+uint64(len(e.items[p].data)) > e.cap {
					ok = true
				}
			}
			if !ok {
				e.violate("after %s: more was evicted than needed (%d of capacity %d left): %s", op, rest, e.cap, describe())
				return
			}
			e.c.Eval(fmt.Sprintf("evict cap=%d %s", e.cap, describe()))
		} else {
			e.c.Eval("")
		}
	}
	for _, p := range ev {
		delete(e.items, p)
	}
}

func actualFI(p string, data []byte) *apt.FileInfo {
	fi, err := apt.CopyWithFileInfo(io.Discard, bytes.NewReader(data), p)
	must(err)
	return fi
}

// insertData goes through TempFile and Insert as the cacher does.
func insertData(st *cacher.Storage, p string, data []byte) error {
	f, err := st.TempFile()
	if err != nil {
		return fmt.Errorf("TempFile: %v", err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	fi, err := apt.CopyWithFileInfo(f, bytes.NewReader(data), p)
	must(err)
	return st.Insert(f.Name(), fi)
}

var stPaths = []string{"a", "b", "c", "d/e", "d/f", "g/h/i", "g/h/j", "k", "z.cache2", "l.cache", "ubuntu/pool/x+y_1.deb", "m", "_tmpfoo", "n o", ".hid", ".d/e"}

func (e *stEnv) step() {
	p := stPaths[e.rng.Intn(len(stPaths))]
	it := e.items[p]
	switch r := e.rng.Intn(20); {
	case r < 8: // insert
		maxSize := 40
		n := e.rng.Intn(maxSize)
		switch e.rng.Intn(12) {
		case 0:
			n = 0
		case 1:
			n = int(e.cap) // exactly the capacity
		case 2:
			n = int(e.cap) + 1 + e.rng.Intn(5)
		}
		if it != nil && e.rng.Intn(3) == 0 {
			n = len(it.data)
		}
		data := make([]byte, n)
		e.rng.Read(data)
		e.log("insert %s %d bytes", p, n)
		err := insertData(e.st, p, data)
		over := e.cap > 0 && uint64(n) > e.cap
		if err != nil {
			e.log("-> %v", err)
			if !over {
				e.violate("insert of %q (%d bytes) failed: %v", p, n, err)
				return
			}
			// refused: nothing may have been evicted for it
			if it != nil && !e.listed()[p] {
				delete(e.items, p)
			}
			e.settleNoEvict("refused insert")
			return
		}
		if over && e.lru {
			// it can never be kept, so nothing needs to make room for it
			e.violate("insert of %q (%d bytes) was accepted, which evicts everything in vain", p, n)
			return
		}
		e.clock++
		e.items[p] = &stItem{data, e.clock}
		e.settle("insert " + p)
	case r < 14: // lookup
		if it == nil {
			fi := actualFI(p, []byte("whatever"))
			if e.rng.Intn(2) == 0 {
				fi = apt.MakeFileInfoNoChecksum(p, 3)
			}
			e.log("lookup absent %s", p)
			f, err := e.st.Lookup(fi)
			if err != cacher.ErrNotFound {
				e.violate("lookup of absent %q gave %v, %v", p, f != nil, err)
				return
			}
			break
		}
		hit := true
		var fi *apt.FileInfo
		switch e.rng.Intn(6) {
		case 0: // other content, same size
			d := append([]byte{}, it.data...)
			if len(d) == 0 {
				d = []byte("x")
			} else {
				d[e.rng.Intn(len(d))] ^= 1
			}
			fi, hit = actualFI(p, d), false
		case 1: // other size, no checksum
			fi, hit = apt.MakeFileInfoNoChecksum(p, uint64(len(it.data)+1)), false
		case 2:
			l := ListingOf(it.data, allSums)
			switch e.rng.Intn(3) { // one checksum wrong
			case 0:
				l.MD5 = hexMD5([]byte("no"))
			case 1:
				l.SHA1 = hexSHA1([]byte("no"))
			case 2:
				l.SHA256 = hexSHA256([]byte("no"))
			}
			fi, hit = mkFIx(p, l), false
		case 3:
			fi = apt.MakeFileInfoNoChecksum(p, uint64(len(it.data)))
		case 4:
			fi = mkFIx(p, ListingOf(it.data, randSums(e.rng)))
		default:
			fi = actualFI(p, it.data)
		}
		e.log("lookup %s hit=%v", p, hit)
		f, err := e.st.Lookup(fi)
		if !hit {
			if err != cacher.ErrNotFound {
				e.violate("lookup of other content of %q gave file=%v err=%v", p, f != nil, err)
				return
			}
			break
		}
		if err != nil {
			e.violate("lookup of cached %q failed: %v", p, err)
			return
		}
		b, rerr := io.ReadAll(f)
		f.Close()
		if rerr != nil || !bytes.Equal(b, it.data) {
			e.violate("lookup of %q returned wrong content (%d bytes, want %d) %v", p, len(b), len(it.data), rerr)
			return
		}
		e.clock++
		it.rank = e.clock
		e.settleNoEvict("lookup")
	case r < 17: // delete
		e.log("delete %s", p)
		if err := e.st.Delete(p); err != nil {
			e.violate("delete of %q failed: %v", p, err)
			return
		}
		delete(e.items, p)
		if e.listed()[p] {
			e.violate("%q is still listed after delete", p)
			return
		}
		e.settleNoEvict("delete")
	case r < 18: // load again on the same storage
		e.log("load")
		if err := e.st.Load(); err != nil {
			e.violate("load failed: %v", err)
			return
		}
		e.settleNoEvict("load")
	case r < 19: // re-open, sometimes with another capacity
		if e.rng.Intn(2) == 0 && e.cap > 0 {
			e.cap = uint64(20 + e.rng.Intn(150))
		}
		e.log("reopen capacity=%d", e.cap)
		e.st = cacher.NewStorage(e.dir, e.cap)
		if err := e.st.Load(); err != nil {
			e.violate("load failed: %v", err)
			return
		}
		for _, it := range e.items {
			it.rank = 0
		}
		e.settle("reopen")
	default: // unstorable paths must be refused without side effects
		bad := []string{"", ".", "/abs", "a/../b", "x/", "./y", "a//b", "../up", ".."}[e.rng.Intn(9)]
		e.log("insert bad path %q", bad)
		if err := insertData(e.st, bad, []byte("bad")); err == nil {
			e.violate("insert of bad path %q was accepted", bad)
			return
		}
		e.settleNoEvict("bad insert")
	}
}

// settleNoEvict: nothing may have disappeared.
func (e *stEnv) settleNoEvict(op string) {
	if e.failed || !e.lru {
		return
	}
	got := e.listed()
	for p := range e.items {
		if !got[p] {
			e.violate("%q vanished with %s", p, op)
			return
		}
	}
	for p := range got {
		if e.items[p] == nil {
			e.violate("%q appeared with %s", p, op)
			return
		}
	}
}

func storageRuns(c *Ctx, lru bool, n int) {
	c.Parallel(n, 8, func(i int) {
		rng := c.Rng(fmt.Sprint("seq", i))
		e := &stEnv{c: c, rng: rng, dir: c.Dir("st"), items: map[string]*stItem{}, extra: map[string][]byte{}, lru: lru}
		defer os.RemoveAll(e.dir)
		if rng.Intn(8) != 0 {
			e.cap = uint64(20 + rng.Intn(150))
		}
		if rng.Intn(2) == 0 { // unrelated files
			for _, p := range []string{"README", "d/notes.txt", "q/cache", ".hidden", "_tmp123", "x.cache.bak"} {
				must(os.MkdirAll(filepath.Dir(filepath.Join(e.dir, p)), 0755))
				e.extra[p] = []byte("unrelated " + p)
				must(os.WriteFile(filepath.Join(e.dir, p), e.extra[p], 0644))
			}
		}
		e.st = cacher.NewStorage(e.dir, e.cap)
		if rng.Intn(3) == 0 { // something on disk already
			for k := 0; k < rng.Intn(6); k++ {
				p := stPaths[rng.Intn(len(stPaths))]
				d := blob(rng, p, rng.Intn(60))[:rng.Intn(20)]
				must(os.MkdirAll(filepath.Dir(filepath.Join(e.dir, p)), 0755))
				must(os.WriteFile(filepath.Join(e.dir, p+".cache"), d, 0644))
				e.items[p] = &stItem{d, 0}
			}
		}
		e.log("open capacity=%d preloaded=%d", e.cap, len(e.items))
		if err := e.st.Load(); err != nil {
			e.violate("load failed: %v", err)
			return
		}
		e.settle("first load")
		e.audit("first load")
		steps := 60
		for k := 0; k < steps && !e.failed; k++ {
			e.step()
			e.audit(e.trace[len(e.trace)-1])
		}
		if !lru {
			key := ""
			if e.evicts > 0 {
				key = strings.Join(e.trace, ";")
			}
			c.Eval(key)
		}
		c.Count("operations", len(e.trace))
		c.Count("operations_that_evicted", e.evicts)
		if i == 0 {
			c.Sample(map[string]interface{}{"capacity": e.cap, "operations": e.trace[:min(20, len(e.trace))]})
		}
	})
}

func checkC06(c *Ctx) {
	storageRuns(c, false, c.N(600, 20000))
	if !c.Failed() {
		for _, k := range []int{1, 4, 5} {
			evictionE2E(c, false, k)
		}
	}
}

func checkC07(c *Ctx) {
	storageRuns(c, true, c.N(600, 20000))
	if !c.Failed() {
		for _, k := range []int{1, 4, 5} {
			evictionE2E(c, true, k)
		}
	}
}

// evictionE2E drives go-apt-cacher over its real capacity of some GiB using
// sparse files that were in the cache before.
func evictionE2E(c *Ctx, lru bool, capacity int) {
	rng := c.Rng(fmt.Sprint("e2e", capacity))
	gib := int64(capacity) << 30
	o := NewOrigin()
	defer o.Close()
	tree := map[string][]byte{}
	const mb = 1 << 20
	var paths []string
	for i := 0; i < 6; i++ {
		p := fmt.Sprintf("pool/f%d.deb", i)
		tree[p] = blob(rng, p, 4*mb)
		paths = append(paths, p)
	}
	o.SetTree(tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.Capacity = capacity
	cdir := filepath.Join(cc.Dir, "cache")
	must(os.MkdirAll(filepath.Join(cdir, "u/old"), 0755))
	sparse := func(name string, n int64) {
		f, err := os.Create(filepath.Join(cdir, name+".cache"))
		must(err)
		must(f.Truncate(n))
		f.Close()
	}
	// room for two items and a bit
	sparse("u/old/big1", gib/2)
	sparse("u/old/big2", gib/2-10*mb)
	must(os.WriteFile(filepath.Join(cdir, "unrelated"), []byte("keep"), 0644))
	p := c.StartCacher(cc)
	defer p.Kill()
	du := func() (total int64, files map[string]bool) {
		files = map[string]bool{}
		filepath.Walk(cdir, func(pp string, info os.FileInfo, err error) error {
			if err == nil && info.Mode().IsRegular() && strings.HasSuffix(pp, ".cache") {
				total += info.Size()
				rel, _ := filepath.Rel(cdir, pp)
				files[strings.TrimSuffix(rel, ".cache")] = true
			}
			return nil
		})
		return
	}
	check := func(when string) map[string]bool {
		t, f := du()
		if t > gib {
			c.Violate(nil, "end to end, %s: %d bytes in cache_dir exceed cache_capacity = %d GiB", when, t, capacity)
		}
		if _, err := os.Stat(filepath.Join(cdir, "unrelated")); err != nil {
			c.Violate(nil, "end to end, %s: unrelated file removed", when)
		}
		c.Eval(fmt.Sprintf("e2e %d GiB %s %d", capacity, when, len(f)))
		return f
	}
	get := func(rel string) {
		r := p.Get("u/"+rel, o)
		if r.Status != 200 || !bytes.Equal(r.Body, tree[rel]) {
			c.Violate(nil, "end to end: GET %s: %v", rel, r)
		}
	}
	get(paths[0])
	get(paths[1])
	f := check("two items fit")
	if lru && (!f["u/old/big1"] || !f["u/old/big2"]) {
		c.Violate(nil, "end to end: items evicted although everything fits: %v", f)
	}
	get(paths[0]) // use it again
	get(paths[2]) // does not fit: one of the old ones goes
	f = check("overflow")
	if lru && (f["u/old/big1"] == f["u/old/big2"] || !f["u/"+paths[0]] || !f["u/"+paths[1]] || !f["u/"+paths[2]]) {
		c.Violate(nil, "end to end: overflow by one item must evict exactly one of the unused old files, have %v", f)
	}
	// re-open with the rest filled up so that the least recently used small item goes
	if p.Term(60*time.Second) == false {
		giveUp("cacher does not stop")
	}
	for _, n := range []string{"u/old/big1", "u/old/big2"} {
		os.Remove(filepath.Join(cdir, n+".cache"))
	}
	sparse("u/old/fill", gib-3*4*mb-3*mb)
	// order by use after the restart: fill is oldest unless everything else is used
	p2 := c.StartCacher(cc)
	defer p2.Kill()
	p = p2
	check("after restart")
	get(paths[3])
	f = check("overflow after restart")
	if !f["u/"+paths[3]] {
		c.Violate(nil, "end to end: newly fetched item is not cached")
	}
	if lru {
		// all four loaded files tie; whichever went, the rest must have been kept minimal
		kept := 0
		for _, n := range []string{"u/" + paths[0], "u/" + paths[1], "u/" + paths[2], "u/old/fill"} {
			if f[n] {
				kept++
			}
		}
		if kept != 3 {
			c.Violate(nil, "end to end: exactly one loaded item must go, kept %d of 4", kept)
		}
	}
	c.Count("e2e_upstream_requests", o.Hits(""))
}

// ------------------------------------------------------------------ C08

type stIn struct {
	Op   string // insert lookup delete list
	Path string
	ID   int // content id; lookup: wanted id, or -1 for any content of that size
	Size int
}

type stOut struct {
	ID   int // content returned
	Err  string
	List string
}

type stState struct {
	s string // canonical "path:id:size," in LRU order, oldest first
}

func stParse(s string) (l []stIn) {
	for _, f := range strings.Split(s, ",") {
		if f == "" {
			continue
		}
		var e stIn
		k := strings.Split(f, ":")
		e.Path = k[0]
		fmt.Sscan(k[1], &e.ID)
		fmt.Sscan(k[2], &e.Size)
		l = append(l, e)
	}
	return
}

func stJoin(l []stIn) string {
	var b strings.Builder
	for _, e := range l {
		fmt.Fprintf(&b, "%s:%d:%d,", e.Path, e.ID, e.Size)
	}
	return b.String()
}

func stModelStep(capacity int) func(st, in, out interface{}) (bool, interface{}) {
	return func(st, in, out interface{}) (bool, interface{}) {
		l := stParse(st.(string))
		i, o := in.(stIn), out.(stOut)
		at := -1
		for k, e := range l {
			if e.Path == i.Path {
				at = k
			}
		}
		switch i.Op {
		case "insert":
			if o.Err != "" {
				return false, st
			}
			if at >= 0 {
				l = append(l[:at:at], l[at+1:]...)
			}
			l = append(l, i)
			tot := 0
			for _, e := range l {
				tot += e.Size
			}
			for tot > capacity {
				tot -= l[0].Size
				l = l[1:]
			}
			return true, stJoin(l)
		case "lookup":
			hit := at >= 0 && (i.ID == l[at].ID || i.ID < 0 && i.Size == l[at].Size)
			if !hit {
				return o.Err == "notfound", st
			}
			if o.Err != "" || o.ID != l[at].ID {
				return false, st
			}
			e := l[at]
			l = append(append(l[:at:at], l[at+1:]...), e)
			return true, stJoin(l)
		case "delete":
			if o.Err != "" {
				return false, st
			}
			if at >= 0 {
				l = append(l[:at:at], l[at+1:]...)
			}
			return true, stJoin(l)
		case "list":
			var s []string
			for _, e := range l {
				s = append(s, fmt.Sprintf("%s:%d", e.Path, e.Size))
			}
			sort.Strings(s)
			return strings.Join(s, ",") == o.List, st
		}
		return false, st
	}
}

func contentOf(id, size int) []byte {
	b := []byte(fmt.Sprintf("%08d|", id))
	for len(b) < size {
		b = append(b, byte(id*7+len(b)))
	}
	return b[:size]
}

func checkC08(c *Ctx) {
	n := c.N(350, 12000)
	c.Parallel(n, 4, func(i int) {
		rng := c.Rng(fmt.Sprint("h", i))
		dir := c.Dir("lin")
		defer os.RemoveAll(dir)
		capacity := 100 + rng.Intn(120)
		st := cacher.NewStorage(dir, uint64(capacity))
		paths := []string{"a", "d/b", "d/c", "e"}[:2+rng.Intn(3)]
		clients, per := 3+rng.Intn(2), 6
		sizes := []int{20, 40, 40, 60}
		fixed := rng.Intn(2) == 0 // one size per path: lookups by size find any content
		var mu sync.Mutex
		made := map[string][]stIn{}
		nextID := 0
		var hist []porcupine.Operation
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for cl := 0; cl < clients; cl++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			cl := cl
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for k := 0; k < per; k++ {
					pi := r.Intn(len(paths))
					in := stIn{Path: paths[pi]}
					var fi *apt.FileInfo
					switch x := r.Intn(10); {
					case x < 4:
						in.Op, in.Size = "insert", sizes[r.Intn(4)]
						if fixed {
							in.Size = sizes[pi]
						}
						mu.Lock()
						nextID++
						in.ID = nextID
						made[in.Path] = append(made[in.Path], in)
						mu.Unlock()
					case x < 8:
						in.Op = "lookup"
						mu.Lock()
						m := made[in.Path]
						if len(m) > 0 {
							w := m[len(m)-1-r.Intn(min(2, len(m)))]
							in.ID, in.Size = w.ID, w.Size
						} else {
							in.ID, in.Size = 1<<20, 30
						}
						mu.Unlock()
						fi = actualFI(in.Path, contentOf(in.ID, in.Size))
						if fixed && r.Intn(2) == 0 {
							in.ID = -1
							fi = apt.MakeFileInfoNoChecksum(in.Path, uint64(in.Size))
						}
					case x < 9:
						in.Op = "delete"
					default:
						in.Op = "list"
					}
					var out stOut
					panicked := false
					var call, ret int64
					switch in.Op {
					case "insert":
						f, err := st.TempFile()
						must(err)
						ifi, err := apt.CopyWithFileInfo(f, bytes.NewReader(contentOf(in.ID, in.Size)), in.Path)
						must(err)
						call = now()
						panicked = c.Guard("insert", func() { err = st.Insert(f.Name(), ifi) })
						ret = now()
						f.Close()
						os.Remove(f.Name())
						if err != nil {
							out.Err = err.Error()
						}
					case "lookup":
						call = now()
						var f *os.File
						var err error
						panicked = c.Guard("lookup", func() { f, err = st.Lookup(fi) })
						ret = now()
						switch {
						case err == cacher.ErrNotFound:
							out.Err = "notfound"
						case err != nil:
							out.Err = err.Error()
						case f != nil:
							b, rerr := io.ReadAll(f)
							f.Close()
							out.ID = -2
							var id int
							if _, serr := fmt.Sscanf(string(b), "%08d|", &id); rerr == nil && serr == nil && bytes.Equal(b, contentOf(id, len(b))) {
								out.ID = id
							}
						}
					case "delete":
						call = now()
						var err error
						panicked = c.Guard("delete", func() { err = st.Delete(in.Path) })
						ret = now()
						if err != nil {
							out.Err = err.Error()
						}
					case "list":
						call = now()
						var l []*apt.FileInfo
						panicked = c.Guard("list", func() { l = st.ListAll() })
						ret = now()
						var s []string
						for _, fi := range l {
							if fi == nil {
								s = append(s, "nil")
								continue
							}
							s = append(s, fmt.Sprintf("%s:%d", fi.Path(), fi.Size()))
						}
						sort.Strings(s)
						out.List = strings.Join(s, ",")
					}
					if panicked {
						return
					}
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: cl, Input: in, Call: call, Output: out, Return: ret})
					mu.Unlock()
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		if c.Failed() {
			return
		}
		sort.Slice(hist, func(a, b int) bool { return hist[a].Call < hist[b].Call })
		overlaps := 0
		var key strings.Builder
		for k := range hist {
			if k > 0 && hist[k].Call < hist[k-1].Return {
				overlaps++
			}
			fmt.Fprint(&key, hist[k].Input, hist[k].Output, ";")
		}
		model := porcupine.Model{Init: func() interface{} { return "" }, Step: stModelStep(capacity),
			DescribeOperation: func(in, out interface{}) string { return fmt.Sprint(in, out) }}
		res := porcupine.CheckOperationsTimeout(model, hist, 60*time.Second)
		c.Count("operations", len(hist))
		c.Count("overlapping_operations", overlaps)
		switch res {
		case porcupine.Illegal:
			var l []string
			for _, h := range hist {
				l = append(l, fmt.Sprintf("client %d [%d..%d] %+v -> %+v", h.ClientId, h.Call, h.Return, h.Input, h.Output))
			}
			c.Violate(map[string]interface{}{"capacity": capacity, "history": l}, "concurrent history is not linearizable (%d operations)", len(hist))
		case porcupine.Unknown:
			c.Count("histories_undecided", 1)
		default:
			c.Count("histories_linearizable", 1)
		}
		k := ""
		if overlaps > 0 {
			k = key.String()
		}
		c.Eval(k)
		if i == 0 {
			c.Sample(map[string]interface{}{"capacity": capacity, "history": head(key.String(), 800)})
		}
	})
	if c.Failed() {
		return
	}
	storageStress(c, c.N(6, 100))
}

// storageStress: many goroutines, heavier churn; every lookup must deliver
// intact content and never fail otherwise than by "not found"; at the end
// books and disk agree.
func storageStress(c *Ctx, rounds int) {
	for round := 0; round < rounds && !c.Failed(); round++ {
		rng := c.Rng(fmt.Sprint("stress", round))
		dir := c.Dir("stress")
		capacity := uint64(20000)
		st := cacher.NewStorage(dir, capacity)
		var idMu sync.Mutex
		last := map[string]stIn{}
		id := 0
		c.Parallel(8, 8, func(w int) {
			r := rand.New(rand.NewSource(rng.Int63() + int64(w)))
			for k := 0; k < 400; k++ {
				p := fmt.Sprintf("p%d/f%d", r.Intn(3), r.Intn(6))
				switch x := r.Intn(10); {
				case x < 3:
					idMu.Lock()
					id++
					in := stIn{Path: p, ID: id, Size: 500 + r.Intn(4000)}
					idMu.Unlock()
					if err := insertData(st, p, contentOf(in.ID, in.Size)); err != nil {
						c.Violate(p, "insert failed under concurrency: %v", err)
						return
					}
					idMu.Lock()
					last[p] = in
					idMu.Unlock()
				case x < 8:
					idMu.Lock()
					in, ok := last[p]
					idMu.Unlock()
					if !ok {
						continue
					}
					want := contentOf(in.ID, in.Size)
					f, err := st.Lookup(actualFI(p, want))
					if err == cacher.ErrNotFound {
						c.Count("stress_misses", 1)
						continue
					}
					if err != nil {
						c.Violate(p, "lookup failed under concurrency: %v", err)
						return
					}
					b, err := io.ReadAll(f)
					f.Close()
					if err != nil || !bytes.Equal(b, want) {
						c.Violate(p, "lookup returned other content under concurrency (%d bytes, want %d) %v", len(b), len(want), err)
						return
					}
					c.Count("stress_hits", 1)
				case x < 9:
					if err := st.Delete(p); err != nil {
						c.Violate(p, "delete failed under concurrency: %v", err)
						return
					}
				default:
					var t uint64
					for _, fi := range st.ListAll() {
						t += fi.Size()
					}
					if t > capacity {
						c.Violate(nil, "list shows %d bytes, capacity is %d", t, capacity)
						return
					}
				}
			}
		})
		e := &stEnv{c: c, dir: dir, cap: capacity, st: st, trace: []string{"stress round"}}
		e.audit("stress")
		c.Eval(fmt.Sprint("stress", round))
		os.RemoveAll(dir)
	}
}
