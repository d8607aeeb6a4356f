package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"mime"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cybozu-go/aptutil/cacher"
)

func init() {
	register("C11", &checkDef{fn: checkC11, level: "exploration", minDistinct: 300,
		rule: "prefixes mapped to different hosts and base paths (with and without trailing slash, escaped characters, one prefix being a prefix of another) and requests for hundreds of legal file names in several spellings (percent-encoded, surplus slashes, dot segments); the upstreams answer every path with their own name and the path, and log what they were asked. Non-trivial: distinct (prefix, name class, spelling)"})
	register("C12", &checkDef{fn: checkC12, level: "exploration", minDistinct: 120,
		rule:  "go-apt-cacher under a system-call monitor that records every file it creates, changes or removes anywhere; clients request hostile paths beside secret files, upstream indices of every kind list paths that lead into other prefixes or out of the directories; afterwards, and again after a restart, the other prefixes' files are requested. Plus direct inserts with hostile item paths. Non-trivial: distinct (hostile path form, index kind, state of the victim)",
		assum: []string{"no symbolic links were put into the directories by somebody else"}})
	register("C13", &checkDef{fn: checkC13, level: "exploration", minDistinct: 1000,
		rule: "raw requests of all kinds (mutated paths, methods, headers), every upstream status 000-999, malformed answers, hostile indices and file names that cannot be stored; each well-formed request must get an HTTP answer, the process must live and a known good file must be served correctly all along. Non-trivial: distinct requests and upstream answers"})
	register("C14", &checkDef{fn: checkC14, level: "exploration", minDistinct: 200,
		rule: "HEAD and GET, each as the first request for a path, range requests of many forms (single, suffix, open, unsatisfiable, multiple, conditional) over files of many sizes, and failing requests, compared with the known content; ranges are also read while the file is replaced by newer versions. Non-trivial: distinct (size, request form)"})
}

// ------------------------------------------------------------------ C11

func checkC11(c *Ctx) {
	c.Parallel(c.N(4, 24), 4, func(i int) { c11Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	if !c.Failed() {
		c11Many(c)
	}
}

func identity(o string) func(pp string, n int, r *http.Request) *Resp {
	return func(pp string, n int, r *http.Request) *Resp {
		return &Resp{Body: []byte(o + "|" + pp)}
	}
}

// pathEscapeAll escapes every byte except slashes.
func pathEscapeAll(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			b.WriteByte('/')
		} else {
			fmt.Fprintf(&b, "%%%02x", p[i])
		}
	}
	return b.String()
}

func c11Run(c *Ctx, rng *rand.Rand, i int) {
	A, B := NewOrigin(), NewOrigin()
	defer A.Close()
	defer B.Close()
	A.Handle(identity("A"))
	B.Handle(identity("B"))
	type target struct {
		o    *Origin
		tag  string
		base string // decoded path, ends with /
		auth string // user information of the URL
	}
	mapping := map[string]string{}
	tg := map[string]target{}
	add := func(prefix string, o *Origin, tag, raw, base string) {
		mapping[prefix] = o.URL + raw
		tg[prefix] = target{o, tag, base, ""}
	}
	add("a", A, "A", "", "/")
	add("a2", A, "A", "/other/base", "/other/base/")
	add("ab", B, "B", "/ab/", "/ab/")
	add("b", B, "B", "/", "/")
	add("x.y_z-0", A, "A", "/deep/er/path/", "/deep/er/path/")
	add("security.ubuntu.com", B, "B", "/ubuntu-sec", "/ubuntu-sec/")
	add("0", B, "B", "/sp%20ace/pl+us", "/sp ace/pl+us/")
	add("-", A, "A", "/~user/", "/~user/")
	add("...", A, "A", "/dots", "/dots/")
	add("other", A, "A", "/a/", "/a/")
	mapping["login"] = strings.Replace(B.URL, "http://", "http://user:p%40ss@", 1) + "/priv"
	tg["login"] = target{B, "B", "/priv/", "user:p@ss"}
	cc := c.DefaultConf(mapping)
	cc.CachePeriod = 0
	cc.MaxConns = 0
	p := c.StartCacher(cc)
	defer p.Kill()
	var prefixes []string
	for k := range tg {
		prefixes = append(prefixes, k)
	}
	names := append([]string{}, weirdNames...)
	names = append(names, "a:b", "x:80", "http:", "1:2.0-1_amd64.deb", "\\back", "quote\"s", "<t>", "{b}", "^", "`", "|", "日本", "%2F", "%2e%2e", "%", "%zz", "sp ", " sp", "-", "~", ".hidden", "..x", "x..", "a=b&c", "?", "#", ";p=1", "+", "Release.lzma.deb", "Packages.diff", "a%00b", "tab\there", "\x7f", "\x80raw", "new\nline")
	spell := []string{"plain", "allescaped", "slashes", "dots", "dotdot", "trailing", "encdots"}
	hits := func() int { return A.Hits("") + B.Hits("") }
	n := c.N(150, 600)
	for j := 0; j < n && !c.Failed(); j++ {
		pre := prefixes[rng.Intn(len(prefixes))]
		t := tg[pre]
		var segs []string
		var cls []string
		for k := 1 + rng.Intn(4); k > 0; k-- {
			w := names[rng.Intn(len(names))]
			if rng.Intn(3) == 0 {
				w = []string{"pool", "main", "dists", "a", "a2", "b", "ab", "other"}[rng.Intn(8)]
			} else {
				cls = append(cls, w)
			}
			segs = append(segs, w)
		}
		segs[len(segs)-1] += fmt.Sprintf("u%d-%d", i, j) // unique path
		rest := strings.Join(segs, "/")
		if strings.Contains(rest, "\x00") {
			continue
		}
		clean := pre + "/" + rest
		sp := spell[rng.Intn(len(spell))]
		var raw string
		switch sp {
		case "plain":
			raw = "/" + escapeNoSlash(clean)
		case "allescaped":
			raw = "/" + pathEscapeAll(clean)
		case "slashes":
			raw = "//" + strings.Replace(escapeNoSlash(clean), "/", "///", -1)
		case "dots":
			raw = "/./" + strings.Replace(escapeNoSlash(clean), "/", "/./", -1)
		case "dotdot":
			raw = "/zz/../" + strings.Replace(escapeNoSlash(clean), "/", "/q/../", 1)
		case "trailing":
			raw = "/" + escapeNoSlash(clean) + "/"
		case "encdots":
			raw = "/b/%2e%2e/" + escapeNoSlash(clean)
		}
		h0 := hits()
		seen := t.o.Hits("")
		rep := p.rawGet("GET", raw, "")
		want := t.tag + "|" + t.base + rest
		if rep.Err != nil || rep.Status != 200 || string(rep.Body) != want {
			c.Violate(map[string]interface{}{"request": raw, "mapped_to": mapping[pre], "reply": rep.String(), "body": head(string(rep.Body), 300), "want": want},
				"request %q (prefix %s -> %s) was not answered with the upstream file %q", raw, pre, mapping[pre], t.base+rest)
			return
		}
		log := t.o.Log()[seen:]
		if hits()-h0 != 1 || len(log) != 1 || log[0].Path != t.base+rest || strings.Contains(log[0].RawURI, "?") || log[0].Method != "GET" || log[0].Host != t.o.Addr {
			c.Violate(map[string]interface{}{"request": raw, "log": log}, "request %q caused other upstream requests than one GET %q to %s", raw, t.base+rest, mapping[pre])
			return
		}
		auth := ""
		if t.auth != "" {
			auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(t.auth))
		}
		if log[0].Auth != auth {
			c.Violate(map[string]interface{}{"request": raw, "mapped_to": mapping[pre], "authorization": log[0].Auth, "want": auth}, "the upstream request for %q was not made with the user information of %s", raw, mapping[pre])
			return
		}
		// the other spellings name the same file: cached now
		rep = p.rawGet("GET", "/"+escapeNoSlash(clean), "")
		if string(rep.Body) != want || hits()-h0 != 1 {
			c.Violate(map[string]interface{}{"first": raw, "second": clean, "hits": hits() - h0}, "two spellings of one path are treated as different files")
			return
		}
		if len(cls) == 0 {
			cls = []string{"ordinary"}
		}
		for _, w := range cls {
			c.Eval(pre + " " + sp + " " + w)
		}
		if j < 2 && i < 2 {
			c.Sample(map[string]string{"request": raw, "upstream": log[0].RawURI})
		}
		// queries are not part of file names
		if rng.Intn(6) == 0 {
			q := fmt.Sprintf("/%s/q%d-%d?x=/../b&y=%d", pre, i, j, j)
			seen = t.o.Hits("")
			h0 = hits()
			rep := p.rawGet("GET", q, "")
			log := t.o.Log()[seen:]
			if rep.Status != 200 || hits()-h0 != 1 || len(log) != 1 || log[0].Path != t.base+fmt.Sprintf("q%d-%d", i, j) {
				c.Violate(map[string]interface{}{"request": q, "log": log, "reply": rep.String()}, "request %q was not routed to the mapped file", q)
				return
			}
			c.Eval("query " + pre)
		}
	}
	// nothing of this may reach an upstream
	h0 := hits()
	for _, bad := range []string{"zz/x", "A/x", "aa/x", "a%20/x", "a%00/x", "%61%62c/x", "a.b/x", "a3/pool", "x.y_z-0x/f", "x.y_z-/f", "secxurity.ubuntu.com/f", "security.ubuntu.co/f", "_/f", "B/f", "ä/f", "a;/f", "a:/f", "http:/a/f", "../zz/f", "a/../zz/f", "b/x/../../c/f", "favicon.ico", "robots.txt"} {
		for _, m := range []string{"GET", "HEAD"} {
			rep := p.rawGet(m, "/"+escapeKeep(bad), "")
			if rep.Status != 404 || hits() != h0 {
				c.Violate(map[string]interface{}{"reply": rep.String(), "upstream_hits": hits() - h0}, "%s for the unregistered %q: want 404 without contacting an upstream", m, bad)
				return
			}
			c.Eval("unregistered " + m + bad)
		}
	}
	for pre := range tg {
		for _, b := range []string{"Packages", "Sources", "Release", "InRelease", "Index"} {
			for _, e := range []string{".lzma", ".lz"} {
				for _, d := range []string{"", "dists/t/main/binary-x/"} {
					rep := p.rawGet([]string{"GET", "HEAD"}[rng.Intn(2)], "/"+pre+"/"+d+b+e, "")
					if rep.Status != 404 || hits() != h0 {
						c.Violate(map[string]interface{}{"reply": rep.String(), "upstream_hits": hits() - h0}, "%s/%s%s%s: want 404 for an unsupported compression without contacting an upstream", pre, d, b, e)
						return
					}
					c.Eval("unsupported " + b + e + d)
				}
			}
		}
	}
	for _, m := range []string{"POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "get", "Get", "HEADX", "M-SEARCH"} {
		for _, u := range []string{"/a/never1", "/zz/never", "/a/Packages.lzma", "/a2/x", "/"} {
			body := ""
			if m == "POST" || m == "PUT" {
				body = "data"
			}
			rep := p.rawGet(m, u, body)
			if rep.Status != 501 || hits() != h0 {
				c.Violate(map[string]interface{}{"reply": rep.String(), "upstream_hits": hits() - h0}, "method %s for %s: want 501 without contacting an upstream", m, u)
				return
			}
			c.Eval("method " + m + u)
		}
	}
	// other suffixes are ordinary files
	for k, nm := range []string{"pool/x.lzma", "pool/data.lz", "Packages.zst", "Contents-amd64.gz", "x.tar.lzma"} {
		pre := prefixes[k%len(prefixes)]
		t := tg[pre]
		rep := p.rawGet("GET", "/"+pre+"/"+nm, "")
		if string(rep.Body) != t.tag+"|"+t.base+nm {
			c.Violate(rep.String(), "%s/%s is an ordinary file but was not fetched", pre, nm)
		}
		c.Eval("ordinary " + nm)
	}
	if !p.Alive() {
		c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died")
	}
}

func escapeNoSlash(p string) string { return escapePath(p)[1:] }

// escapeKeep escapes spaces and non-ASCII only.
func escapeKeep(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] <= ' ' || p[i] >= 0x7f {
			fmt.Fprintf(&b, "%%%02X", p[i])
		} else {
			b.WriteByte(p[i])
		}
	}
	return b.String()
}

// rawGet sends a request line verbatim.
func (p *CacherProc) rawGet(method, uri, body string) *Reply {
	r := &Reply{Path: uri}
	cl := ""
	if body != "" {
		cl = fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	resp, b, err := p.Raw(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n%s\r\n%s", method, uri, p.Addr, cl, body), 60*time.Second)
	r.Err, r.Body = err, b
	if resp != nil {
		r.Status, r.Header = resp.StatusCode, resp.Header
	}
	return r
}

// ------------------------------------------------------------------ C12

func checkC12(c *Ctx) {
	c.Parallel(c.N(8, 60), 8, func(i int) { c12Run(c, c.Rng(fmt.Sprint("run", i)), i) })
	if c.Failed() {
		return
	}
	c12Insert(c)
}

func c12Run(c *Ctx, rng *rand.Rand, i int) {
	ou, ov := NewOrigin(), NewOrigin()
	defer ou.Close()
	defer ov.Close()
	cc := c.DefaultConf(map[string]string{"u": ou.URL, "v": ov.URL, "u2": ov.URL + "/two"})
	cc.CachePeriod = 0
	token := fmt.Sprintf("SECRET-%d", rng.Int63())
	secrets := []string{"secret", "secret.cache", "Release", "Release.cache", "metax/u/f.cache", "cachex/f.cache", "other/pool/f.cache", "pool/f.cache"}
	for _, s := range secrets {
		fp := filepath.Join(cc.Dir, s)
		must(os.MkdirAll(filepath.Dir(fp), 0755))
		must(os.WriteFile(fp, []byte(token), 0644))
	}
	for _, s := range []string{"meta/stray", "meta/_tmp1", "cache/stray", "cache/_tmp2"} {
		fp := filepath.Join(cc.Dir, s)
		must(os.MkdirAll(filepath.Dir(fp), 0755))
		must(os.WriteFile(fp, []byte(token), 0644))
	}
	fam := randSums(rng)
	// victims under v and u2
	var vf []PkgFile
	for j := 0; j < 8; j++ {
		p := fmt.Sprintf("pool/f%d.deb", j)
		vf = append(vf, PkgFile{Path: p, Data: blob(rng, "v/"+p, 300+rng.Intn(1000))})
	}
	vs := &Suite{Name: "t", Exts: []string{".gz"}, RelSums: fam, PkgSums: fam, Marker: "v"}
	vs.Comps = []*Comp{{Section: "main", Arch: "amd64", Pkgs: vf}}
	vb := (&Repo{Suites: []*Suite{vs}}).Build()
	vtree := map[string][]byte{}
	for k, d := range vb.Tree {
		vtree[k] = d
		vtree["two/"+k] = d
	}
	ov.SetTree(vtree)

	kinds := []string{"packages", "sources", "release", "inrelease", "index"}
	kind := kinds[(i+rng.Intn(5))%5]
	ext := []string{"", ".gz", ".xz", ".bz2"}[rng.Intn(4)]
	if kind == "inrelease" {
		ext = ""
	}
	// hostile listings
	up := ""
	if kind == "release" || kind == "inrelease" || kind == "index" {
		up = "../../" // these are relative to dists/h
	}
	forms := []string{"../%s", "x/../../%s", "../u/../%s", "..//%s", "./../%s", "../../u/../%s", "../zz/../%s", "/../%s", "../../../../../../%s"}
	victims := []string{}
	for k := range vb.Tree {
		if rankPath(k) > 0 || rng.Intn(2) == 0 {
			victims = append(victims, "v/"+k)
		}
	}
	for _, f := range vf[:3] {
		victims = append(victims, "u2/"+f.Path)
	}
	rng.Shuffle(len(victims), func(x, y int) { victims[x], victims[y] = victims[y], victims[x] })
	var b bytes.Buffer
	var used []string
	wrong := func() Listing {
		d := blob(rng, "wrong", 50)
		return ListingOf(d, fam)
	}
	var lines []struct {
		p string
		l Listing
	}
	addl := func(p string) {
		lines = append(lines, struct {
			p string
			l Listing
		}{up + p, wrong()})
		used = append(used, up+p)
	}
	for _, f := range forms {
		for _, v := range victims {
			addl(fmt.Sprintf(f, v))
		}
	}
	for _, p := range []string{"..", ".", "/", "", "../u", "../..", cc.Dir + "/secret", ".." + cc.Dir + "/secret", "../../secret", "../v", "v", "../u2", "..\\v\\pool", "u/../v/pool/f0.deb", "../meta/u/x", "../cache/v/pool/f1.deb", "../../cache/v/pool/f1.deb"} {
		if p != "" {
			addl(p)
		}
	}
	own := PkgFile{Path: "pool/own.deb", Data: blob(rng, "u/own", 500)}
	same := PkgFile{Path: "pool/f0.deb", Data: blob(rng, "u/pool/f0", 500)}
	utree := map[string][]byte{own.Path: own.Data, same.Path: same.Data}
	var ip string
	switch kind {
	case "packages":
		var l []PkgFile
		for _, e := range lines {
			ll := e.l
			l = append(l, PkgFile{Path: e.p, List: &ll})
		}
		l = append(l, own, same)
		writePackages(&b, l, fam, map[string]Listing{})
		ip = "dists/h/main/binary-x/Packages" + ext
	case "sources":
		var l []SrcPkg
		for _, e := range lines {
			ll := e.l
			if rng.Intn(2) == 0 {
				l = append(l, SrcPkg{Dir: path.Dir(e.p), Files: []PkgFile{{Path: path.Base(e.p), List: &ll}}})
			} else {
				l = append(l, SrcPkg{Dir: "pool", Files: []PkgFile{{Path: "../" + e.p, List: &ll}}})
			}
		}
		l = append(l, SrcPkg{Dir: "pool", Files: []PkgFile{{Path: "own.deb", Data: own.Data}, {Path: "f0.deb", Data: same.Data}}})
		writeSources(&b, l, fam, map[string]Listing{})
		ip = "dists/h/main/source/Sources" + ext
	default:
		var es []relEntry
		for _, e := range lines {
			es = append(es, relEntry{e.p, e.l})
		}
		es = append(es, relEntry{"../../" + own.Path, ListingOf(own.Data, fam)}, relEntry{"../../" + same.Path, ListingOf(same.Data, fam)})
		writeRelease(&b, &Suite{Name: "h", Marker: "h"}, es)
		ip = "dists/h/" + map[string]string{"release": "Release", "inrelease": "InRelease", "index": "Index"}[kind] + ext
	}
	idata := compress(ext, b.Bytes())
	if kind == "inrelease" {
		idata = clearsign(b.Bytes())
	}
	utree[ip] = idata
	ou.SetTree(utree)

	t := &Tracer{Root: ""}
	var p *CacherProc
	start := func() {
		t = &Tracer{Root: ""}
		p = c.traceCacher(cc, t)
		if !p.waitUp() {
			c.Violate(t.Stderr, "go-apt-cacher does not start")
		}
	}
	stop := func() {
		if p.Alive() {
			syscall.Kill(t.Pid, syscall.SIGKILL)
		} else {
			c.Violate(t.Stderr, "go-apt-cacher died")
		}
		<-p.exited
		for _, op := range t.Ops {
			for _, q := range []string{op.Path, op.Path2} {
				if op.Name == "symlink" && q == op.Path || q == "" || strings.HasPrefix(q, "/dev/") {
					continue
				}
				if strings.HasPrefix(filepath.Base(q), "trace-stderr") {
					continue
				}
				if !under(filepath.Join(cc.Dir, "meta"), q) && !under(filepath.Join(cc.Dir, "cache"), q) {
					c.Violate(op.String(), "go-apt-cacher changed something outside meta_dir and cache_dir: %s", op)
				}
			}
			c.Count("file_changes_observed", 1)
		}
	}
	start()
	if c.Failed() {
		return
	}
	state := []string{"uncached", "cached"}[i%2]
	relFirst := rng.Intn(2) == 0
	good := func(k string, when string) {
		want := vtree[strings.TrimPrefix(strings.TrimPrefix(k, "v/"), "u2/")]
		rep := p.Get(k, ou, ov)
		if rep.Stuck != "" || rep.Status != 200 || !bytes.Equal(rep.Body, want) {
			c.Violate(map[string]interface{}{"reply": rep.String(), "hostile_index": "u/" + ip, "listings": used[:10]},
				"%s: %s is not served correctly although only an index of another prefix lists other checksums for it: %s", when, k, rep)
		}
		c.Eval(fmt.Sprintf("%s%s %s %s %d", kind, ext, state, when, rankPath(k)))
	}
	if state == "cached" || relFirst {
		good("v/dists/t/InRelease", "before")
		if state == "cached" {
			good("v/dists/t/main/binary-amd64/Packages.gz", "before")
			for _, v := range victims {
				good(v, "before")
			}
		}
	}
	rep := p.Get("u/"+ip, ou)
	if rep.Status != 200 {
		c.Count("hostile_index_refused", 1)
	}
	h0 := ov.Hits("")
	round := func(when string) {
		for _, v := range victims {
			good(v, when)
			if c.Failed() {
				return
			}
		}
		for _, f := range []PkgFile{own, same} {
			r := p.Get("u/"+f.Path, ou)
			if r.Status != 200 || !bytes.Equal(r.Body, f.Data) {
				c.Violate(r.String(), "%s: u/%s is not served correctly", when, f.Path)
			}
		}
	}
	round("after the hostile index")
	if state == "cached" && ov.Hits("") != h0 && !c.Failed() {
		c.Violate(map[string]interface{}{"hits": ov.Hits("") - h0}, "an index of another prefix made cached files be fetched again")
	}
	// hostile requests
	bad := []string{"/../secret", "/u/../../secret", "/u/../../../secret", "/..%2f..%2fsecret", "/u/..%2f..%2f..%2fsecret", "/%2e%2e/%2e%2e/secret", "/u/%2e%2e/%2e%2e/secret", "/u/..%5c..%5csecret",
		"/u" + cc.Dir + "/secret", cc.Dir + "/secret", "//" + cc.Dir + "/secret", "/u//" + cc.Dir + "/secret", "/u/../stray", "/stray", "/u/../_tmp1", "/_tmp2", "/u/../../meta/stray", "/u/../../cache/stray", "/meta/stray", "/u/../../pool/f", "/u/pool/../../../pool/f",
		"/v/../../cachex/f", "/../Release", "/u/../../Release", "/u/../Release", "/u/%00/../../secret", "/u/x%00", "/u/..", "/u/.", "/..", "/.", "/u/../u/../../secret", "/%2e%2e%2fsecret", "/u/...//..././secret", "/u/..;/..;/secret", "/u/%252e%252e/%252e%252e/secret", "/u/\\..\\..\\secret"}
	for _, u := range bad {
		for _, m := range []string{"GET", "HEAD"} {
			r := p.rawGet(m, u, "")
			if bytes.Contains(r.Body, []byte(token)) {
				c.Violate(map[string]interface{}{"request": u, "status": r.Status}, "request %s %s was answered with a file the cacher did not cache", m, u)
			}
			if m == "HEAD" && r.Status == 200 && r.Header.Get("Content-Length") == strconv.Itoa(len(token)) {
				c.Violate(u, "HEAD %s reveals a file the cacher did not cache", u)
			}
			c.Eval("request " + u)
		}
	}
	for j := 0; j < c.N(40, 300); j++ {
		parts := []string{"..", ".", "u", "v", "secret", "secret.cache", "meta", "cache", "%2e%2e", "", "pool", "f.cache", "..%2f", "x", "Release", "%00", "cachex", "metax", cc.Dir[1:]}
		s := ""
		for k := 1 + rng.Intn(8); k > 0; k-- {
			s += "/" + parts[rng.Intn(len(parts))]
		}
		r := p.rawGet("GET", s, "")
		if bytes.Contains(r.Body, []byte(token)) {
			c.Violate(map[string]interface{}{"request": s, "status": r.Status}, "request %s was answered with a file the cacher did not cache", s)
		}
		c.Eval("")
	}
	// upstream answers everything
	ou.Handle(func(pp string, n int, r *http.Request) *Resp {
		if ou.Tree()[strings.TrimPrefix(pp, "/")] != nil {
			return nil
		}
		return &Resp{Body: []byte("evil " + pp)}
	})
	for _, u := range bad {
		p.rawGet("GET", u, "")
	}
	round("after hostile requests")
	stop()
	if c.Failed() {
		return
	}
	start()
	if c.Failed() {
		return
	}
	round("after a restart")
	stop()
	for _, s := range secrets {
		data, err := os.ReadFile(filepath.Join(cc.Dir, s))
		if err != nil || string(data) != token {
			c.Violate(s, "the file %s outside meta_dir and cache_dir was changed", s)
		}
	}
	c.Sample(map[string]interface{}{"index": "u/" + ip, "state": state, "listings": used[:6]})
}

// c12Insert inserts items whose path would leave the storage.
func c12Insert(c *Ctx) {
	rng := c.Rng("insert")
	base := c.Dir("insert")
	dir := filepath.Join(base, "a", "store")
	must(os.MkdirAll(dir, 0755))
	st := cacher.NewStorage(dir, 0)
	snap := func() map[string]string {
		m := map[string]string{}
		filepath.Walk(base, func(p string, info os.FileInfo, err error) error {
			if err == nil {
				if p == dir {
					return filepath.SkipDir
				}
				d, _ := os.ReadFile(p)
				m[p] = info.Mode().String() + string(d)
			}
			return nil
		})
		return m
	}
	parts := []string{"..", ".", "x", "store", "a", "", "..x", "x..", "...", "pool"}
	before := snap()
	for i := 0; i < c.N(3000, 50000); i++ {
		var p string
		switch i {
		case 0:
			p = ".."
		case 1:
			p = "../x"
		case 2:
			p = "../../x"
		case 3:
			p = "/abs/x"
		case 4:
			p = "../store2/x"
		case 5:
			p = dir + "/../y"
		case 6:
			p = filepath.Join(base, "zz")
		default:
			n := 1 + rng.Intn(5)
			var s []string
			for k := 0; k < n; k++ {
				s = append(s, parts[rng.Intn(len(parts))])
			}
			p = strings.Join(s, "/")
		}
		leaves := filepath.IsAbs(p) || p == "" || !under(dir, filepath.Join(dir, p)) || filepath.Join(dir, p) == dir
		err := insertData(st, p, []byte("data"))
		if leaves && err == nil {
			c.Violate(p, "inserting an item with path %q into a storage is accepted", p)
			return
		}
		if leaves {
			for _, fi := range st.ListAll() {
				if fi.Path() == p {
					c.Violate(p, "the refused item %q is listed", p)
					return
				}
			}
			c.Count("inserts_refused", 1)
			c.Eval("insert " + p)
		}
		if i%50 == 0 || i < 10 {
			now := snap()
			if len(now) != len(before) {
				c.Violate(p, "inserting items created or removed files outside the storage (last %q): %v", p, now)
				return
			}
			for k, v := range before {
				if now[k] != v {
					c.Violate(p, "inserting items changed %s outside the storage", k)
					return
				}
			}
		}
	}
}

// ------------------------------------------------------------------ C13

func checkC13(c *Ctx) {
	c.Parallel(c.N(6, 24), 6, func(i int) {
		rng := c.Rng(fmt.Sprint("run", i))
		switch i % 3 {
		case 0:
			c13Requests(c, rng, i)
		case 1:
			c13Statuses(c, rng, i)
		case 2:
			c13Indices(c, rng, i)
		}
	})
	if !c.Failed() {
		c.Parallel(c.N(2, 6), 6, func(i int) { c13Leaks(c, c.Rng(fmt.Sprint("leaks", i)), i) })
	}
}

// c13Leaks repeats each kind of request more often than the process may
// have open files.  Files and connections that are not given back end in
// requests that fail; the garbage collector, which might close some of
// them by chance, is off.
func c13Leaks(c *Ctx, rng *rand.Rand, i int) {
	const limit = 100
	o := NewOrigin()
	defer o.Close()
	g := GenOpts{Suites: []string{"good"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 3, MaxSize: 2000, Exts: []string{".gz"}}
	r := GenRepo(rng, g)
	fam := randSums(rng)
	big := make([]byte, 3<<20)
	rng.Read(big)
	n := c.N(150, 400)
	var wrong []PkgFile
	for j := 0; j < n; j++ {
		wrong = append(wrong, PkgFile{Path: fmt.Sprintf("pool/wrong/w%d.deb", j), Data: []byte("right")})
	}
	var ix bytes.Buffer
	writePackages(&ix, wrong, fam, map[string]Listing{})
	good := r.Build().Tree
	tree := map[string][]byte{"pool/big.deb": big, "dists/w/Packages": ix.Bytes()}
	for k, d := range good {
		tree[k] = d
	}
	o.SetTree(tree)
	fs := failures()
	o.Handle(func(pp string, n int, rq *http.Request) *Resp {
		switch {
		case strings.HasPrefix(pp, "/pool/wrong/"):
			return &Resp{Body: []byte("wrong")}
		case strings.HasPrefix(pp, "/pool/fresh"):
			return &Resp{Body: []byte("fresh " + pp)}
		case strings.HasPrefix(pp, "/fail/"):
			k, _ := strconv.Atoi(strings.Split(pp, "/")[2])
			return fs[k%len(fs)].resp([]byte("0123456789"))
		case strings.HasPrefix(pp, "/ok/"):
			return &Resp{Body: []byte("ok")}
		case strings.HasPrefix(pp, "/odd/"):
			k, _ := strconv.Atoi(strings.Split(pp, "/")[2])
			return &Resp{Status: []int{203, 206, 226, 300, 301, 304, 202, 204}[k%8], Body: bytes.Repeat([]byte("x"), 100)}
		case strings.HasSuffix(pp, "/bad/Packages.gz"):
			return &Resp{Body: []byte("\x1f\x8bgarbage")}
		}
		return nil
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod, cc.CheckInterval, cc.Files = 0, 1, limit
	cc.Env = []string{"GOGC=off", "GOMEMLIMIT=2GiB"}
	if i%2 == 1 {
		cc.Capacity = 1 // too small for the big file
		tree["pool/big.deb"] = big[:400<<10]
	}
	p := c.StartCacher(cc)
	defer p.Kill()
	keys := sortedKeys(good)
	one := keys[len(keys)-1]
	long := strings.Repeat("n", 300)
	abort := func(k string) {
		conn, err := net.DialTimeout("tcp", p.Addr, 10*time.Second)
		if err == nil {
			fmt.Fprintf(conn, "GET /u/%s HTTP/1.1\r\nHost: x\r\n\r\n", k)
			io.ReadFull(conn, make([]byte, 100))
			conn.Close()
		}
	}
	p.Get("u/dists/w/Packages", o)
	kinds := []struct {
		name string
		f    func(j int)
	}{
		{"HEAD of a cached file", func(j int) { p.Do("HEAD", "u/"+one, nil, o) }},
		{"GET of a cached file", func(j int) { p.Get("u/"+one, o) }},
		{"range of a cached file", func(j int) { p.Do("GET", "u/"+one, map[string]string{"Range": "bytes=1-2"}, o) }},
		{"unsatisfiable range", func(j int) { p.Do("GET", "u/"+one, map[string]string{"Range": "bytes=9999999-"}, o) }},
		{"conditional request", func(j int) {
			p.Do("GET", "u/"+one, map[string]string{"If-Modified-Since": "Fri, 01 Jan 2100 00:00:00 GMT"}, o)
		}},
		{"HEAD of a new file", func(j int) { p.Do("HEAD", fmt.Sprintf("u/pool/fresh/h%d", j), nil, o) }},
		{"GET of a new file", func(j int) { p.Get(fmt.Sprintf("u/pool/fresh/g%d", j), o) }},
		{"upstream failure", func(j int) { p.Get(fmt.Sprintf("u/fail/%d", j), o) }},
		{"HEAD with upstream failure", func(j int) { p.Do("HEAD", fmt.Sprintf("u/fail/%d/h", j), nil, o) }},
		{"one path that fails", func(j int) { p.Get("u/pool/none", o) }},
		{"odd upstream status", func(j int) { p.Get(fmt.Sprintf("u/odd/%d", j), o) }},
		{"content that does not match", func(j int) { p.Get("u/"+wrong[j%len(wrong)].Path, o) }},
		{"name that cannot be stored", func(j int) { p.Get("u/ok/"+long+fmt.Sprint(j), o) }},
		{"broken index", func(j int) { p.Get(fmt.Sprintf("u/dists/b%d/bad/Packages.gz", j), o) }},
		{"client that goes away", func(j int) { abort("pool/big.deb") }},
		{"client that goes away during a download", func(j int) { abort(fmt.Sprintf("pool/fresh/a%d", j)) }},
		{"unknown prefix", func(j int) { p.Get("zz/x", o) }},
		{"other method", func(j int) { p.Do("POST", "u/"+one, nil, o) }},
		{"dot-dot", func(j int) { p.Get("u/../../x", o) }},
	}
	rng.Shuffle(len(kinds), func(x, y int) { kinds[x], kinds[y] = kinds[y], kinds[x] })
	for _, kd := range kinds {
		for j := 0; j < n && !c.Failed(); j++ {
			kd.f(j)
		}
		for _, k := range append([]string{}, keys...) {
			var rep *Reply
			// (those that went away may take a moment to be noticed)
			ok := waitFor(30*time.Second, func() bool {
				rep = p.Get("u/"+k, o)
				return rep.Stuck != "" || rep.Err == nil && rep.Status == 200 && bytes.Equal(rep.Body, good[k])
			})
			if !ok || rep.Stuck != "" {
				if !p.Alive() {
					c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died after %d requests of the kind %q", n, kd.name)
					return
				}
				c.Violate(map[string]interface{}{"open_file_limit": limit, "stderr": tail(p.stderr.String(), 1500)},
					"after %d requests of the kind %q the good file u/%s is no longer served: %s", n, kd.name, k, rep)
				return
			}
			c.Count("good_file_probes", 1)
		}
		c.Eval("leaks " + kd.name + fmt.Sprint(i%2))
		c.Count("requests_for_leaks", n)
	}
}

// c13Env starts a cacher with a known good file and a probe for it.
func c13Env(c *Ctx, rng *rand.Rand) (o *Origin, p *CacherProc, probe func(what string) bool, tree map[string][]byte) {
	o = NewOrigin()
	g := GenOpts{Suites: []string{"good"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 3, MaxSize: 2000, Exts: []string{".gz"}}
	b := GenRepo(rng, g).Build()
	tree = b.Tree
	o.SetTree(tree)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CachePeriod = 0
	p = c.StartCacher(cc)
	keys := sortedKeys(tree)
	n := 0
	probe = func(what string) bool {
		if !p.Alive() {
			c.Violate(map[string]interface{}{"last": head(what, 2000), "stderr": tail(p.stderr.String(), 3000)}, "go-apt-cacher died (last: %q)", head(what, 200))
			return false
		}
		k := keys[n%len(keys)]
		n++
		rep := p.Get("u/"+k, o)
		if rep.Stuck != "" || rep.Status != 200 || !bytes.Equal(rep.Body, tree[k]) {
			if !p.Alive() {
				c.Violate(map[string]interface{}{"last": head(what, 2000), "stderr": tail(p.stderr.String(), 3000)}, "go-apt-cacher died (last: %q)", head(what, 200))
				return false
			}
			c.Violate(map[string]interface{}{"last": head(what, 2000)}, "the good file u/%s is no longer served correctly after %q: %s", k, head(what, 200), rep)
			return false
		}
		c.Count("good_file_probes", 1)
		return true
	}
	return
}

func c13Requests(c *Ctx, rng *rand.Rand, i int) {
	o, p, probe, tree := c13Env(c, rng)
	defer o.Close()
	defer func() { p.Kill() }()
	for _, k := range sortedKeys(tree) {
		p.Get("u/"+k, o)
	}
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if tree[strings.TrimPrefix(pp, "/")] != nil {
			return nil
		}
		return &Resp{Body: []byte("ok " + pp)}
	})
	host := p.Addr
	good := sortedKeys(tree)[0]
	hd := func(m, u, h string) string {
		return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\n%sConnection: close\r\n\r\n", m, u, host, h)
	}
	long := strings.Repeat("n", 300)
	// well-formed requests: an answer is due
	var due []string
	for _, m := range []string{"GET", "HEAD", "POST", "OPTIONS", "DELETE", "TRACE"} {
		for _, u := range []string{"/", "//", "/u", "/u/", "/u/.", "/u/..", "/.", "/..", "/u//", "/u/Release", "/u/Packages", "/u/Packages.gz", "/u/Sources.xz", "/Release", "/Release.gz", "/Packages.bz2", "/u/InRelease.lzma", "/u/" + long, "/u/" + strings.Repeat("d/", 400) + "f", "/u/" + strings.Repeat("x", 4200),
			"/u/%00", "/u/a%00b/Packages", "/%00", "/u/a", "/u/a.cache/b", "/u/b.cache/c", "/u/b", "/u/dir/x", "/u/dir", "/u/dir.cache", "/u/x.cache", "/u/%ff%fe", "/u/%0d%0aX:y", "/u/?", "/?", "/u/#", "/u/%20", "/u/*", "http://" + host, "http://" + host + "/", "http://" + host + "/u", "http://other.example/u/abs", "http://" + host + "?q", "/u/Index", "/u/Release/x", "/u/Release.cache/x", "/u/" + good + "/below", "/u/" + good + ".cache/below", "/u/_tmp", "/u/Packages/Packages", "*",
			"/u/" + strings.Repeat("%41", 300), "/u/" + strings.Repeat("../", 100) + "u/x", "/u/con:aux", "/u/Release.gpg", "/u/.cache", "/.cache", "/u/..cache"} {
			if u == "*" && m != "OPTIONS" {
				continue
			}
			due = append(due, hd(m, u, ""))
		}
	}
	for _, h := range []string{"Range: bytes=0-0\r\n", "Range: bytes=-\r\n", "Range: bytes=99999999999999999999-\r\n", "Range: bytes=" + strings.Repeat("0-0,", 500) + "0-0\r\n", "Range: lines=1-2\r\n", "If-None-Match: *\r\n", "If-Match: *\r\n", "If-Modified-Since: x\r\n", "If-Unmodified-Since: Mon, 02 Jan 2006 15:04:05 GMT\r\n", "If-Range: \"x\"\r\nRange: bytes=1-2\r\n",
		"Accept-Encoding: gzip\r\n", "Expect: 200-ok\r\n", "X-Long: " + strings.Repeat("y", 60000) + "\r\n", "Transfer-Encoding: chunked\r\n", "Content-Length: 0\r\n", "Cookie: a=b\r\n", "X-Request-ID: " + long + "\r\n", "Upgrade: websocket\r\n", "Upgrade: h2c\r\nHTTP2-Settings: AAMAAABkAARAAAAAAAIAAAAA\r\n", "Te: trailers\r\n", "Proxy-Connection: keep-alive\r\n", "Cache-Control: no-cache\r\n", "Pragma: no-cache\r\n"} {
		for _, u := range []string{"/u/" + good, "/u/missing", "/u/fresh" + fmt.Sprint(len(due))} {
			for _, m := range []string{"GET", "HEAD"} {
				s := hd(m, u, h)
				if strings.HasPrefix(h, "Transfer-Encoding") {
					s += "0\r\n\r\n"
				}
				due = append(due, s)
			}
		}
	}
	due = append(due, "GET /u/x HTTP/1.0\r\n\r\n", "HEAD /u/y HTTP/1.0\r\n\r\n", "GET / HTTP/1.0\r\nHost: x\r\n\r\n", "GET http://x HTTP/1.0\r\n\r\n",
		"CONNECT "+host+" HTTP/1.1\r\nHost: "+host+"\r\n\r\n", "CONNECT example.com:443 HTTP/1.1\r\nHost: example.com:443\r\n\r\n", "CONNECT / HTTP/1.1\r\nHost: x\r\n\r\n",
		"POST /u/x HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\nConnection: close\r\n\r\nhello")
	alphabet := "abcdefgXYZ0189-._~%/:@!$&'()*+,;=[]|^`{}\"<>\\"
	for j := 0; j < c.N(250, 3000); j++ {
		var b strings.Builder
		b.WriteString("/")
		if rng.Intn(4) > 0 {
			b.WriteString("u/")
		}
		for k := rng.Intn(30); k > 0; k-- {
			switch rng.Intn(8) {
			case 0:
				fmt.Fprintf(&b, "%%%02x", rng.Intn(256))
			case 1:
				b.WriteString([]string{"..", "/", ".cache", "Release", "Packages", ".gz", "InRelease", "//"}[rng.Intn(8)])
			default:
				b.WriteByte(alphabet[rng.Intn(len(alphabet))])
			}
		}
		u := b.String()
		if strings.Contains(u, "%") {
			if _, err := url.ParseRequestURI(u); err != nil {
				u = strings.Replace(u, "%", "%25", -1)
			}
		}
		due = append(due, hd([]string{"GET", "HEAD", "GET", "PUT"}[rng.Intn(4)], u, ""))
	}
	rng.Shuffle(len(due), func(x, y int) { due[x], due[y] = due[y], due[x] })
	for j, s := range due {
		resp, _, err := p.Raw(s, 90*time.Second)
		if ne, ok := err.(net.Error); ok && ne.Timeout() && resp == nil {
			if o.Quiet(stuckQuiet) {
				c.Violate(head(s, 2000), "a request was not answered in 90 s: %q", head(s, 200))
			} else {
				c.Inconclusive("slow answer to %q", head(s, 200))
			}
			return
		}
		if resp == nil {
			if !probe(s) {
				return
			}
			c.Violate(map[string]interface{}{"request": head(s, 2000), "error": fmt.Sprint(err), "stderr": tail(p.stderr.String(), 2000)}, "a request was not answered with an HTTP response (%v): %q", err, head(s, 200))
			return
		}
		c.Eval("request " + head(s, 400))
		if j%25 == 0 && !probe(s) {
			return
		}
	}
	// arbitrary bytes: only survival is due
	for j := 0; j < c.N(60, 1000); j++ {
		s := due[rng.Intn(len(due))]
		bs := []byte(head(s, 3000))
		for k := 1 + rng.Intn(6); k > 0; k-- {
			switch rng.Intn(3) {
			case 0:
				bs[rng.Intn(len(bs))] = byte(rng.Intn(256))
			case 1:
				bs = bs[:1+rng.Intn(len(bs))]
			case 2:
				x := rng.Intn(len(bs))
				bs = append(bs[:x:x], append([]byte("\r\n \x00"), bs[x:]...)...)
			}
		}
		conn, err := net.DialTimeout("tcp", p.Addr, 10*time.Second)
		if err != nil {
			break
		}
		conn.Write(bs)
		if rng.Intn(2) == 0 {
			conn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
			io.Copy(io.Discard, conn)
		}
		conn.Close()
		c.Eval("bytes " + sha(bs))
		if j%20 == 0 && !probe(string(bs)) {
			return
		}
	}
	probe("end")
	c.Sample(map[string]interface{}{"requests": len(due), "example": head(due[0], 200)})
}

func c13Statuses(c *Ctx, rng *rand.Rand, i int) {
	o, p, probe, tree := c13Env(c, rng)
	defer o.Close()
	defer func() { p.Kill() }()
	scripts := map[string]*Resp{}
	var mu sync.Mutex
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		defer mu.Unlock()
		return scripts[pp]
	})
	type cas struct {
		name string
		r    *Resp
		ok   bool // a 200 may come out of it
	}
	var cases []cas
	step := 1
	if !c.Thorough() {
		step = 3
	}
	for s := i % step; s < 1000; s += step {
		cases = append(cases, cas{fmt.Sprintf("status %03d", s), &Resp{Raw: []byte(fmt.Sprintf("HTTP/1.1 %03d X\r\nContent-Length: 3\r\nConnection: close\r\n\r\nabc", s))}, s == 200})
	}
	loop := "http://" + o.Addr
	for _, rw := range []string{
		"", "\r\n\r\n", "garbage", "HTTP/1.1", "HTTP/1.1 \r\n\r\n", "HTTP/1.1 20\r\n\r\n", "HTTP/1.1 2000 X\r\n\r\n", "HTTP/1.1 -200 X\r\n\r\n", "HTTP/9.9 200 OK\r\n\r\n", "ICY 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nab", "HTTP/1.1 200 OK\r\nContent-Length: 9223372036854775807\r\n\r\nab", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999\r\n\r\nab",
		"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nab", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc", "HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip, chunked\r\n\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nNoColon\r\n\r\n", "HTTP/1.1 200 OK\r\n: x\r\n\r\n", "HTTP/1.1 200 OK\r\nA: " + strings.Repeat("x", 2<<20) + "\r\n\r\n",
		"HTTP/1.1 301 X\r\nConnection: close\r\n\r\n", "HTTP/1.1 302 X\r\nLocation: file:///etc/passwd\r\nConnection: close\r\n\r\n", "HTTP/1.1 302 X\r\nLocation: ://\r\nConnection: close\r\n\r\n", "HTTP/1.1 302 X\r\nLocation: \r\nConnection: close\r\n\r\n", "HTTP/1.1 307 X\r\nLocation: http://127.0.0.1:1/\r\nConnection: close\r\n\r\n", "HTTP/1.1 302 X\r\nLocation: ftp://x/\r\nConnection: close\r\n\r\n", "HTTP/1.1 302 X\r\nLocation: @SELF@\r\nConnection: close\r\n\r\n", "HTTP/1.1 303 X\r\nLocation: " + loop + "/nowhere\r\nConnection: close\r\n\r\n",
		"HTTP/1.1 206 X\r\nContent-Range: bytes 0-1/9\r\nContent-Length: 2\r\nConnection: close\r\n\r\nab", "HTTP/1.1 304 X\r\nConnection: close\r\n\r\n", "HTTP/1.1 204 X\r\nConnection: close\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 404 X\r\nContent-Length: 0\r\n\r\n", strings.Repeat("HTTP/1.1 103 Early\r\nA: b\r\n\r\n", 20) + "HTTP/1.1 500 X\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 401 X\r\nWWW-Authenticate: Basic\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 407 X\r\nContent-Length: 0\r\n\r\n",
		"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 3\r\n\r\nabc", "\x16\x03\x01\x02\x00", "HTTP/2.0 200 OK\r\n\r\n",
	} {
		cases = append(cases, cas{"raw " + head(rw, 80), &Resp{Raw: []byte(rw)}, false})
	}
	kinds := []string{"pool/%d.deb", "dists/z%d/Release", "dists/z%d/Release.gpg", "dists/z%d/InRelease", "dists/z%d/main/binary-x/Packages.gz", "dists/z%d/Sources.xz"}
	for j, k := range cases {
		pp := fmt.Sprintf(kinds[(j+rng.Intn(2))%len(kinds)], j)
		r := *k.r
		if strings.Contains(string(r.Raw), "@SELF@") {
			r.Raw = []byte(strings.Replace(string(r.Raw), "@SELF@", loop+"/"+pp, 1))
		}
		if len(r.Raw) == 0 {
			r = Resp{Reset: true}
		}
		mu.Lock()
		scripts["/"+pp] = &r
		mu.Unlock()
		m := "GET"
		if j%5 == 4 {
			m = "HEAD"
		}
		rep := p.Do(m, "u/"+pp, nil, o)
		switch {
		case rep.Stuck != "":
			c.Violate(k.name, "a request was never answered when the upstream answers %q: %s", k.name, rep.Stuck)
			return
		case rep.Err != nil:
			if !probe(k.name) {
				return
			}
			c.Violate(map[string]interface{}{"upstream": k.name, "stderr": tail(p.stderr.String(), 2000)}, "a request was not answered with an HTTP response when the upstream answers %q: %v", k.name, rep.Err)
			return
		case rep.Status == 200 && !k.ok && strings.HasPrefix(k.name, "status"):
			c.Violate(map[string]interface{}{"upstream": k.name, "body": head(string(rep.Body), 100)}, "a request was answered 200 when the upstream answers %q", k.name)
			return
		}
		c.Eval("upstream " + k.name)
		if j%20 == 0 && !probe(k.name) {
			return
		}
	}
	probe("end")
	_ = tree
}

func c13Indices(c *Ctx, rng *rand.Rand, i int) {
	o, p, probe, tree := c13Env(c, rng)
	defer o.Close()
	defer func() { p.Kill() }()
	var mu sync.Mutex
	data := map[string][]byte{}
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		mu.Lock()
		defer mu.Unlock()
		if b, ok := data[pp]; ok {
			return &Resp{Body: b}
		}
		return nil
	})
	names := []string{"Release", "InRelease", "Release.gpg", "Index", "Packages", "Sources", "Packages.gz", "Packages.xz", "Packages.bz2", "Sources.gz", "Sources.xz", "Release.gz", "Index.bz2"}
	n := c.N(160, 2500)
	for j := 0; j < n; j++ {
		nm := names[rng.Intn(len(names))]
		dir := fmt.Sprintf("dists/h%d", j)
		pp := "/" + dir + "/" + nm
		ext := path.Ext(nm)
		if ext == ".gpg" {
			ext = ""
		}
		base := strings.TrimSuffix(nm, ext)
		var b bytes.Buffer
		fam := randSums(rng)
		var what string
		switch rng.Intn(8) {
		case 0: // names that cannot be stored, or lists itself
			what = "names"
			var l []PkgFile
			for _, f := range []string{strings.Repeat("n", 300), "a\x00b", dir + "/" + nm, "pool/x", "pool/x.cache/y", "/abs", "..", ".", strings.Repeat("d/", 3000) + "f", dir, "\xff", "good"} {
				l = append(l, PkgFile{Path: f, Data: []byte("x")})
			}
			switch base {
			case "Packages":
				writePackages(&b, l, fam, map[string]Listing{})
			case "Sources":
				var s []SrcPkg
				for _, f := range l {
					s = append(s, SrcPkg{Dir: "pool", Files: []PkgFile{f}})
				}
				writeSources(&b, s, fam, map[string]Listing{})
			default:
				var es []relEntry
				for _, f := range l {
					es = append(es, relEntry{f.Path, ListingOf([]byte("x"), fam)})
				}
				es = append(es, relEntry{nm, ListingOf([]byte("x"), fam)}, relEntry{"Release", ListingOf([]byte("x"), fam)}, relEntry{"main/Packages", ListingOf([]byte("x"), fam)})
				writeRelease(&b, &Suite{Name: "h"}, es)
			}
		case 1:
			what = "random bytes"
			r := make([]byte, rng.Intn(5000))
			rng.Read(r)
			b.Write(r)
		case 2:
			what = "odd fields"
			for k := rng.Intn(20); k > 0; k-- {
				b.WriteString([]string{"Filename: pool/a\n", "Size: -1\n", "Size: 99999999999999999999\n", "Size: 5\n", "MD5sum: 00\n", "MD5sum: " + randHex(rng, 16) + "\n", "SHA256: zz\n", "Directory: ../..\n", "Files:\n", " " + randHex(rng, 16) + " 5 f\n", " x y z w\n", " " + randHex(rng, 16) + " -5 f\n", "\n", "SHA1:\n", "MD5Sum:\n", "Checksums-Sha256:\n", ":\n", "x\n", "Acquire-By-Hash: yes\n", "# c\n", "Filename:\n", "Size:\n"}[rng.Intn(22)])
			}
		case 3:
			what = "long line"
			fmt.Fprintf(&b, "Package: %s\nFilename: pool/x\n", strings.Repeat("v", []int{65535, 65536, 70000, 2 << 20, 12 << 20}[rng.Intn(5)]))
		case 4:
			what = "pgp"
			b.WriteString([]string{"-----BEGIN PGP SIGNED MESSAGE-----\n", "-----BEGIN PGP SIGNED MESSAGE-----\nHash: x\n\n-----BEGIN PGP SIGNATURE-----\n", "-----BEGIN PGP SIGNATURE-----\n\n", "-----BEGIN PGP SIGNED MESSAGE-----\n\n\n\nA: b\n"}[rng.Intn(4)])
		case 5:
			what = "many"
			for k := 0; k < 20000; k++ {
				b.WriteString("\n\n")
			}
		case 6:
			what = "empty"
		case 7:
			what = "nul and high bytes"
			b.WriteString("Package: \x00\nFilename: \x00\nSize: \x00\n \x00\nMD5sum: \x00\n\n")
		}
		d := compress(ext, b.Bytes())
		if ext != "" && rng.Intn(2) == 0 {
			what += " damaged"
			switch rng.Intn(4) {
			case 0:
				d = b.Bytes()
			case 1:
				if len(d) > 1 {
					d = d[:rng.Intn(len(d))]
				}
			case 2:
				for k := 0; k < 4 && len(d) > 0; k++ {
					d = append([]byte{}, d...)
					d[rng.Intn(len(d))] ^= byte(1 + rng.Intn(255))
				}
			case 3:
				// headers that announce huge dictionaries
				d = append([]byte("\xfd7zXZ\x00\x00\x04\xe6\xd6\xb4\x46\x02\x00\x21\x01\x28\x00\x00\x00"), 0x8f, 0x98, 0x41, 0x9c)
			}
		}
		mu.Lock()
		data[pp] = d
		data["/"+dir+"/main/Packages"] = []byte("y")
		data["/pool/x"] = []byte("x")
		mu.Unlock()
		reqs := []string{"u" + pp, "u" + pp, "u/" + dir + "/main/Packages", "u/pool/x", "u/pool/x.cache/y", "u/" + dir + "/Release"}
		for _, rq := range reqs[:2+rng.Intn(len(reqs)-1)] {
			rep := p.Get(rq, o)
			if rep.Stuck != "" || rep.Err != nil {
				if rep.Err != nil && rep.Stuck == "" && !probe(what+" "+nm) {
					return
				}
				c.Violate(map[string]interface{}{"index": nm, "kind": what, "content": head(fmt.Sprintf("%q", d), 3000), "stderr": tail(p.stderr.String(), 2000)},
					"no answer to %s with a hostile index (%s %s): %s", rq, what, nm, rep)
				return
			}
		}
		c.Eval("index " + nm + " " + what + " " + sha(d)[:8])
		if j%10 == 0 && !probe(what+" "+nm) {
			return
		}
	}
	probe("end")
	// and it can be started on what it stored
	p.Kill()
	p2, err := c.TryStartCacher(p.Conf)
	if err != nil {
		c.Violate(nil, "go-apt-cacher does not start on the hostile indices it stored: %v", err)
		return
	}
	p = p2
	k := sortedKeys(tree)[0]
	if rep := p.Get("u/"+k, o); rep.Status != 200 || !bytes.Equal(rep.Body, tree[k]) {
		c.Violate(nil, "after a restart on hostile indices u/%s is not served correctly: %s", k, rep)
	}
}

// ------------------------------------------------------------------ C14

func checkC14(c *Ctx) {
	c.Parallel(c.N(4, 16), 4, func(i int) { c14Static(c, c.Rng(fmt.Sprint("static", i)), i) })
	if c.Failed() {
		return
	}
	c.Parallel(c.N(4, 8), 4, func(i int) { c14Refresh(c, c.Rng(fmt.Sprint("refresh", i)), i) })
	c14Validators(c, c.Rng("validators"))
	if !c.Failed() {
		c14Big(c)
	}
}

// c14Validators: whatever validators an answer carries, they do not stand
// for another version of the file.
func c14Validators(c *Ctx, rng *rand.Rand) {
	o := NewOrigin()
	defer o.Close()
	set := c04Handlers(o)
	p := c.StartCacher(c.DefaultConf(map[string]string{"u": o.URL}))
	defer p.Kill()
	for j := 0; j < c.N(30, 150) && !c.Failed(); j++ {
		pp := fmt.Sprintf("pool/v%d.deb", j)
		size := 200 + rng.Intn(3000)
		A := blob(rng, pp, size)[:size]
		B := flip(rng, A)
		if j%3 == 2 {
			B = append(append([]byte{}, B...), 'x')
		}
		set("/"+pp, func(n int) *Resp { return &Resp{Body: A} })
		ra := p.Get("u/"+pp, o)
		var ix bytes.Buffer
		writePackages(&ix, []PkgFile{{Path: pp, Data: B}}, randSums(rng), map[string]Listing{})
		set("/"+pp, func(n int) *Resp { return &Resp{Body: B} })
		ip := fmt.Sprintf("dists/v%d/Packages", j)
		set("/"+ip, func(n int) *Resp { return &Resp{Body: ix.Bytes()} })
		ri := p.Get("u/"+ip, o)
		rb := p.Get("u/"+pp, o)
		if ra.Status != 200 || ri.Status != 200 || rb.Status != 200 || !bytes.Equal(rb.Body, B) {
			c.Violate([]string{ra.String(), ri.String(), rb.String()}, "%s is not served in the version its index lists", pp)
			return
		}
		n := 0
		for _, v := range [][3]string{{"Etag", "If-None-Match", ""}, {"Etag", "If-Range", "bytes=5-50"}, {"Last-Modified", "If-Modified-Since", ""}, {"Last-Modified", "If-Range", "bytes=5-50"}} {
			for _, from := range []*Reply{ra, rb} {
				val := from.Header.Get(v[0])
				if val == "" {
					continue
				}
				n++
				hdr := map[string]string{v[1]: val}
				if v[2] != "" {
					hdr["Range"] = v[2]
				}
				for _, m := range []string{"GET", "HEAD"} {
					if m == "HEAD" && v[2] != "" {
						continue
					}
					r := p.Do(m, "u/"+pp, hdr, o)
					old := from == ra
					bad := ""
					switch {
					case r.Status == 304 || r.Status == 206 && !bytes.Equal(r.Body, B[5:51]) || r.Status == 206 && old:
						if old || r.Status == 206 {
							bad = "as if the replaced version were the current one"
						}
					case r.Status == 200 && (m == "GET" && !bytes.Equal(r.Body, B) || r.Header.Get("Content-Length") != strconv.Itoa(len(B))):
						bad = "with something else than the file"
					case r.Status != 200 && r.Status != 206:
						bad = "with an error"
					}
					if bad != "" {
						c.Violate(map[string]interface{}{"headers": hdr, "reply": r.String()}, "%s %s with %s of the %s answer is answered %s", m, pp, v[0], map[bool]string{true: "earlier", false: "current"}[old], bad)
						return
					}
				}
			}
		}
		c.Count("validators_tried", n)
		c.Eval(fmt.Sprintf("validators %d", j%3))
	}
}

// rangeModel interprets a single range; ok is false if it is no plain range.
func rangeModel(spec string, size int) (a, b int, sat, ok bool) {
	s := strings.TrimPrefix(spec, "bytes=")
	if s == spec || strings.ContainsAny(s, ", ") {
		return
	}
	i := strings.Index(s, "-")
	if i < 0 {
		return
	}
	x, y := s[:i], s[i+1:]
	switch {
	case x == "" && y != "":
		n, err := strconv.Atoi(y)
		if err != nil || n < 1 {
			return
		}
		if n > size {
			n = size
		}
		return size - n, size, size > 0, true
	case x != "":
		n, err := strconv.Atoi(x)
		if err != nil {
			return
		}
		m := size - 1
		if y != "" {
			m, err = strconv.Atoi(y)
			if err != nil || m < n {
				return
			}
			if m >= size {
				m = size - 1
			}
		}
		return n, m + 1, n < size, true
	}
	return
}

func checkRange(spec string, rep *Reply, bodies [][]byte) string {
	match := func(cr string, part []byte, cand [][]byte) [][]byte {
		var a, b, n int
		if k, err := fmt.Sscanf(cr, "bytes %d-%d/%d", &a, &b, &n); k != 3 || err != nil {
			return nil
		}
		var out [][]byte
		for _, d := range cand {
			if len(d) == n && a >= 0 && b < n && a <= b && bytes.Equal(d[a:b+1], part) {
				out = append(out, d)
			}
		}
		return out
	}
	switch rep.Status {
	case 200:
		for _, d := range bodies {
			if bytes.Equal(d, rep.Body) {
				if a, b, sat, ok := rangeModel(spec, len(d)); ok && sat && len(d) > 0 && rep.Header.Get("If-Range") == "" {
					return fmt.Sprintf("whole file instead of bytes %d-%d", a, b-1)
				}
				return ""
			}
		}
		return "200 with a body that is no version"
	case 206:
		mt, params, _ := mime.ParseMediaType(rep.Header.Get("Content-Type"))
		if mt == "multipart/byteranges" {
			mr := multipart.NewReader(bytes.NewReader(rep.Body), params["boundary"])
			cand := bodies
			n := 0
			for {
				pt, err := mr.NextPart()
				if err == io.EOF {
					break
				}
				if err != nil {
					return "malformed multipart answer: " + err.Error()
				}
				d, _ := io.ReadAll(pt)
				cand = match(pt.Header.Get("Content-Range"), d, cand)
				if len(cand) == 0 {
					return "a part does not fit its Content-Range in one version: " + pt.Header.Get("Content-Range")
				}
				n++
			}
			if want := strings.Count(spec, ",") + 1; n > want || n == 0 {
				return fmt.Sprintf("%d parts for %d ranges", n, want)
			}
			return ""
		}
		cand := match(rep.Header.Get("Content-Range"), rep.Body, bodies)
		if len(cand) == 0 && len(rep.Body) == 0 && strings.HasPrefix(spec, "bytes=-") && !strings.Contains(spec, ",") {
			for _, d := range bodies {
				if n := len(d); rep.Header.Get("Content-Range") == fmt.Sprintf("bytes %d-%d/%d", n, n-1, n) && (n == 0 || spec == "bytes=-0") {
					return emptySuffix
				}
			}
		}
		if len(cand) == 0 {
			return "206 whose body does not fit its Content-Range: " + rep.Header.Get("Content-Range")
		}
		if strings.Contains(spec, ",") {
			return "" // ranges of which one is satisfiable
		}
		for _, d := range cand {
			if a, b, sat, ok := rangeModel(spec, len(d)); ok && sat {
				if rep.Header.Get("Content-Range") == fmt.Sprintf("bytes %d-%d/%d", a, b-1, len(d)) {
					return ""
				}
			}
		}
		return "206 with other bytes than requested: " + rep.Header.Get("Content-Range")
	case 416:
		for _, d := range bodies {
			if _, _, sat, ok := rangeModel(spec, len(d)); !ok || !sat {
				return ""
			}
		}
		return "416 for a satisfiable range"
	}
	return fmt.Sprintf("status %d", rep.Status)
}

// emptySuffix is what net/http does with suffix ranges of no bytes.
const emptySuffix = "empty-suffix-range"

// badRange reports what checkRange found.
func badRange(c *Ctx, w interface{}, msg, format string, args ...interface{}) {
	if msg == emptySuffix {
		c.ViolateKeyed(emptySuffix, w, "a suffix range that selects no byte (bytes=-0, or any suffix of an empty file) is answered 206 with a malformed Content-Range")
		return
	}
	c.Violate(w, format+": %s", append(args, msg)...)
}

func randRange(rng *rand.Rand, size int) string {
	x, y := rng.Intn(size+3), rng.Intn(size+3)
	switch rng.Intn(14) {
	case 0:
		return "bytes=0-0"
	case 1:
		return fmt.Sprintf("bytes=%d-", x)
	case 2:
		return fmt.Sprintf("bytes=-%d", x)
	case 3:
		return fmt.Sprintf("bytes=%d-%d", size-1, size-1)
	case 4:
		return fmt.Sprintf("bytes=%d-%d", size, size+5)
	case 5:
		return fmt.Sprintf("bytes=0-%d", size+100)
	case 6:
		return "bytes=0-0,-1"
	case 7:
		return fmt.Sprintf("bytes=%d-%d,%d-%d", size/4, size/4+1, size/2, size/2+3)
	case 8:
		return fmt.Sprintf("bytes=1-2, %d-, 0-0", size-1)
	case 9:
		return []string{"bytes=", "bytes=-", "bytes=a-b", "items=0-1", "bytes=5-2", "bytes 0-1", "bytes=--1", "bytes=0-0,", "bytes=-0"}[rng.Intn(9)]
	case 10:
		return "bytes=" + strings.Repeat("0-0,", 30) + "1-1"
	}
	if x > y {
		x, y = y, x
	}
	return fmt.Sprintf("bytes=%d-%d", x, y)
}

func c14Static(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	set := c04Handlers(o)
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	p := c.StartCacher(cc)
	defer p.Kill()
	// always probed
	for _, d := range [][]byte{{}, []byte("0123456789")} {
		d := d
		pp := fmt.Sprintf("pool/suffix%d.deb", len(d))
		set("/"+pp, func(n int) *Resp { return &Resp{Body: d} })
		for _, spec := range []string{"bytes=-0", "bytes=-1", "bytes=-10", "bytes=-11"} {
			r := p.Do("GET", "u/"+pp, map[string]string{"Range": spec}, o)
			if msg := checkRange(spec, r, [][]byte{d}); msg != "" {
				badRange(c, pp, msg, "range request %q for %s", spec, pp)
			}
			c.Eval(fmt.Sprintf("suffix %d %s", len(d), spec))
		}
	}
	sizes := []int{0, 1, 2, 3, 511, 512, 513, 4095, 4096, 4097, 32768, 100000, 1 << 20}
	exts := []string{".deb", "", ".html", ".gz", ".tar.xz", ".dsc", ".json", ".txt", ".unknownext", "/Release", "/InRelease", "/Packages", "/Sources", "/Release.gpg"}
	for j := 0; j < c.N(40, 200) && !c.Failed(); j++ {
		size := sizes[rng.Intn(len(sizes))]
		pp := fmt.Sprintf("pool/s%d/f%d%s", i, j, exts[rng.Intn(len(exts))])
		d := blob(rng, pp, size)
		if size < len(d) {
			d = d[:size]
		}
		if strings.Contains(pp, "Packages") || strings.Contains(pp, "Sources") {
			d = []byte("Package: x\nVersion: " + strings.Repeat("1", size%5000) + "\n\n")
		}
		chunked := rng.Intn(3) == 0
		set("/"+pp, func(n int) *Resp { return &Resp{Body: d, Chunked: chunked, Slow: 1 + rng.Intn(1)} })
		headOK := func(r *Reply, when string) {
			if r.Stuck != "" || r.Err != nil || r.Status != 200 || r.Header.Get("Content-Length") != strconv.Itoa(len(d)) || len(r.Body) != 0 {
				c.Violate(map[string]interface{}{"path": pp, "size": len(d), "reply": r.String(), "content_length": fmt.Sprint(r.Header["Content-Length"])},
					"HEAD %s (%s) does not agree with the file of %d bytes: status %d, Content-Length %v", pp, when, len(d), r.Status, r.Header["Content-Length"])
			}
		}
		getOK := func(r *Reply, when string) {
			if r.Stuck != "" || r.Err != nil || r.Status != 200 || !bytes.Equal(r.Body, d) || r.Header.Get("Content-Length") != strconv.Itoa(len(d)) {
				c.Violate(map[string]interface{}{"path": pp, "size": len(d), "reply": r.String(), "content_length": fmt.Sprint(r.Header["Content-Length"])},
					"GET %s (%s) is not the file of %d bytes: %s", pp, when, len(d), r)
			}
		}
		first := rng.Intn(4)
		switch first {
		case 0:
			headOK(p.Do("HEAD", "u/"+pp, nil, o), "triggers the download")
		case 1:
			getOK(p.Get("u/"+pp, o), "triggers the download")
		case 2: // concurrent
			var wg sync.WaitGroup
			for k := 0; k < 4; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					if k%2 == 0 {
						headOK(p.Do("HEAD", "u/"+pp, nil, o), "with concurrent requests")
					} else {
						getOK(p.Get("u/"+pp, o), "with concurrent requests")
					}
				}()
			}
			wg.Wait()
		case 3:
			spec := randRange(rng, len(d))
			r := p.Do("GET", "u/"+pp, map[string]string{"Range": spec}, o)
			if r.Stuck != "" || r.Err != nil {
				c.Violate(nil, "range request %q for %s: %s", spec, pp, r)
			} else if msg := checkRange(spec, r, [][]byte{d}); msg != "" {
				badRange(c, map[string]interface{}{"path": pp, "size": len(d)}, msg, "range request %q that triggers the download of %s", spec, pp)
			}
		}
		headOK(p.Do("HEAD", "u/"+pp, nil, o), "cached")
		getOK(p.Get("u/"+pp, o), "cached")
		// no stray bytes after a HEAD answer
		conn, err := net.DialTimeout("tcp", p.Addr, 10*time.Second)
		if err == nil {
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			fmt.Fprintf(conn, "HEAD /u/%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", pp)
			all, _ := io.ReadAll(conn)
			conn.Close()
			if k := bytes.Index(all, []byte("\r\n\r\n")); k < 0 || k+4 != len(all) {
				c.Violate(head(string(all), 500), "the answer to HEAD %s has a body", pp)
			}
		}
		c.Eval(fmt.Sprintf("size %d first %d %s", size, first, path.Ext(pp)))
		for k := 0; k < c.N(12, 40); k++ {
			spec := randRange(rng, len(d))
			hdr := map[string]string{"Range": spec}
			cond := ""
			switch rng.Intn(8) {
			case 0:
				cond = "If-Range"
				hdr["If-Range"] = `"nope"`
			case 1:
				cond = "If-None-Match"
				hdr[cond] = `"abc"`
			case 2:
				cond = "If-Modified-Since"
				hdr[cond] = "Mon, 02 Jan 2006 15:04:05 GMT"
			case 3:
				cond = "Accept-Encoding"
				hdr[cond] = "gzip"
			}
			r := p.Do("GET", "u/"+pp, hdr, o)
			if r.Stuck != "" || r.Err != nil {
				c.Violate(nil, "range request %q for %s: %s", spec, pp, r)
				return
			}
			if cond == "If-Range" && r.Status == 200 {
				r.Header.Set("If-Range", "x") // the whole file is right
			}
			if msg := checkRange(spec, r, [][]byte{d}); msg != "" {
				badRange(c, map[string]interface{}{"path": pp, "size": len(d), "condition": cond}, msg, "range request %q (%s) for the cached %s (%d bytes)", spec, cond, pp, len(d))
				continue
			}
			c.Eval(fmt.Sprintf("range size %d %s %s %d", size, rangeClass(spec), cond, r.Status))
		}
		// conditional requests without a range
		for _, h := range [][2]string{{"If-None-Match", `"x"`}, {"If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}, {"If-Unmodified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}, {"Accept-Encoding", "gzip"}} {
			r := p.Do("GET", "u/"+pp, map[string]string{h[0]: h[1]}, o)
			if r.Status == 200 {
				getOK(r, h[0])
			} else if r.Status < 300 || len(r.Body) != 0 && r.Status == 304 {
				c.Violate(r.String(), "conditional request %s for %s: status %d", h[0], pp, r.Status)
			}
			c.Eval("condition " + h[0])
		}
	}
	// failures
	fs := failures()
	for _, s := range []int{206, 203, 226, 304, 300, 301} {
		s := s
		fs = append(fs, failure{fmt.Sprint("non-error ", s), 0, func(b []byte) *Resp { return &Resp{Status: s, Body: b[:10]} }})
	}
	fs = append(fs, failure{"mismatch", 0, func(b []byte) *Resp {
		d := append([]byte{}, b...)
		d[len(d)-1] ^= 1
		return &Resp{Body: d}
	}})
	// half of the files are listed in an index
	modes := []string{"GET", "HEAD", "RANGE", "GET", "HEAD", "RANGE"}
	badPath := func(j, k int) string { return fmt.Sprintf("pool/s%d/bad%d-%d.deb", i, j, k) }
	var l []PkgFile
	for j := range fs {
		for k := 3; k < len(modes); k++ {
			l = append(l, PkgFile{Path: badPath(j, k), Data: blob(rng, badPath(j, k), 2000)})
		}
	}
	var ix bytes.Buffer
	writePackages(&ix, l, randSums(rng), map[string]Listing{})
	set("/dists/bad/Packages", func(n int) *Resp { return &Resp{Body: ix.Bytes()} })
	if r := p.Get("u/dists/bad/Packages", o); r.Status != 200 {
		giveUp("the index is not served: %s", r)
	}
	for j, f := range fs {
		for k, m := range modes {
			if c.Failed() {
				return
			}
			pp := badPath(j, k)
			d := blob(rng, pp, 2000)
			if k >= 3 {
				d = l[j*3+k-3].Data
			} else if f.name == "mismatch" {
				continue
			}
			f := f
			set("/"+pp, func(n int) *Resp { return f.resp(d) })
			var st []int
			order := []string{m, "GET", "HEAD", "RANGE", m}
			for _, mm := range order {
				hdr := map[string]string{}
				meth := mm
				if mm == "RANGE" {
					meth, hdr["Range"] = "GET", "bytes=0-99"
				}
				r := p.Do(meth, "u/"+pp, hdr, o)
				if r.Stuck != "" || r.Err != nil {
					c.Violate(nil, "%s for %s with upstream failure %s: %s", mm, pp, f.name, r)
					return
				}
				if r.Status < 400 {
					c.Violate(r.String(), "%s for %s answered %d although the upstream transfer failed (%s)", mm, pp, r.Status, f.name)
					return
				}
				if meth == "HEAD" && len(r.Body) != 0 {
					c.Violate(r.String(), "the answer to HEAD %s has a body", pp)
				}
				st = append(st, r.Status)
			}
			for _, s := range st {
				if s != st[0] {
					c.Violate(st, "%s with upstream failure %s: the statuses of %v differ: %v", pp, f.name, order, st)
				}
			}
			c.Eval(fmt.Sprintf("failure %s %s listed=%v", f.name, m, k >= 3))
		}
	}
	for _, mm := range []string{"GET", "HEAD"} {
		for _, u := range []string{"zz/x", "u/dists/t/Packages.lzma", "zz"} {
			if r := p.Do(mm, u, nil, o); r.Status != 404 {
				c.Violate(r.String(), "%s %s answered %d", mm, u, r.Status)
			}
		}
	}
}

func rangeClass(s string) string {
	var b strings.Builder
	last := byte(0)
	for i := 0; i < len(s) && b.Len() < 30; i++ {
		ch := s[i]
		if ch >= '0' && ch <= '9' {
			ch = 'N'
		}
		if ch != last || ch != 'N' {
			b.WriteByte(ch)
		}
		last = ch
	}
	return b.String()
}

// c14Refresh reads ranges of a file that is replaced all the time.
func c14Refresh(c *Ctx, rng *rand.Rand, i int) {
	o := NewOrigin()
	defer o.Close()
	var mu sync.Mutex
	var bodies [][]byte
	rel := "dists/r/" + []string{"InRelease", "Release"}[i%2]
	brng := rand.New(rand.NewSource(rng.Int63()))
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if pp != "/"+rel {
			return &Resp{Body: []byte("sig")}
		}
		mu.Lock()
		defer mu.Unlock()
		b := []byte("Origin: x\nDescription: " + randHex(brng, 100000+7*n) + "\n")
		bodies = append(bodies, b)
		return &Resp{Body: b}
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.CheckInterval = 1
	p := c.StartCacher(cc)
	defer p.Kill()
	p.Get("u/"+rel, o)
	end := time.Now().Add(time.Duration(c.N(4, 40)) * time.Second)
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		w := w
		r := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && !c.Failed() {
				if w == 3 {
					h := p.Do("HEAD", "u/"+rel, nil, o)
					cl, _ := strconv.Atoi(h.Header.Get("Content-Length"))
					ok := false
					mu.Lock()
					for _, b := range bodies {
						ok = ok || len(b) == cl
					}
					mu.Unlock()
					if h.Status != 200 || !ok {
						c.Violate(h.String(), "HEAD of a file under refresh: status %d, Content-Length %d of no version", h.Status, cl)
					}
					c.Count("heads_under_refresh", 1)
					continue
				}
				spec := randRange(r, 200000)
				rep := p.Do("GET", "u/"+rel, map[string]string{"Range": spec}, o)
				if rep.Stuck != "" || rep.Err != nil {
					c.Violate(nil, "range request for a file under refresh: %s", rep)
					return
				}
				mu.Lock()
				bs := append([][]byte{}, bodies...)
				mu.Unlock()
				if msg := checkRange(spec, rep, bs); msg != "" {
					badRange(c, nil, msg, "range request %q of a file under refresh", spec)
				}
				c.Count("ranges_under_refresh", 1)
			}
		}()
	}
	wg.Wait()
	mu.Lock()
	c.Max("versions_under_refresh", len(bodies))
	mu.Unlock()
	c.Eval("refresh " + rel)
}
