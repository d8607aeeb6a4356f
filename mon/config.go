package main

import (
	"encoding/pem"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cybozu-go/aptutil/cacher"
	"github.com/cybozu-go/aptutil/mirror"
)

func init() {
	register("G01", &checkDef{fn: checkG01, level: "exploration", minDistinct: 90,
		rule:  "for both commands a working configuration is changed in one or two places into something the documentation rules out: the command must exit with an error without asking the upstream for anything (and without listening or publishing); the working variants around it must work. Every documented setting and default is observed: listening address, intervals, error period, directories, capacity, connection limit, mapping with and without trailing slashes and with paths, http, https and proxies, log file, level and format; mirror directory, limit, URL forms, suites, sections, sources, architectures. Non-trivial: distinct (command, change)",
		assum: []string{"the prefixes . and .. are not used", "the default port is only tested when it is free"}})
}

func checkG01(c *Ctx) {
	var jobs []func()
	add := func(f func()) { jobs = append(jobs, f) }
	g01Cacher(c, add)
	g01Mirror(c, add)
	add(func() { g01Defaults(c) })
	c.Parallel(len(jobs), 16, func(i int) { jobs[i]() })
}

// kv is an ordered TOML document: top-level keys, then sections.
type tomlDoc struct {
	top  map[string]string
	secs map[string]map[string]string
}

func (d tomlDoc) clone() tomlDoc {
	n := tomlDoc{map[string]string{}, map[string]map[string]string{}}
	for k, v := range d.top {
		n.top[k] = v
	}
	for s, m := range d.secs {
		n.secs[s] = map[string]string{}
		for k, v := range m {
			n.secs[s][k] = v
		}
	}
	return n
}

func (d tomlDoc) String() string {
	var b strings.Builder
	emit := func(m map[string]string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if m[k] != "" {
				fmt.Fprintf(&b, "%s = %s\n", k, m[k])
			}
		}
	}
	emit(d.top)
	var ss []string
	for s := range d.secs {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&b, "[%s]\n", s)
		emit(d.secs[s])
	}
	return b.String()
}

// ---------------------------------------------------------------- cacher

func g01Cacher(c *Ctx, add func(func())) {
	rng := c.Rng("cacher")
	fam := allSums
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 3, MaxSize: 400, Exts: []string{""}, Sums: &fam}
	b := GenRepo(rng, g).Build()
	deb := ""
	for p := range b.Items {
		if strings.HasPrefix(filepath.Base(p), "pkg") {
			deb = p
		}
	}
	if deb == "" {
		for p := range b.Items {
			deb = p
		}
	}
	newO := func() *Origin {
		o := NewOrigin()
		o.SetTree(b.Tree)
		o.Handle(func(pp string, n int, r *http.Request) *Resp {
			// the repository may be anywhere
			for _, pre := range []string{"/ubuntu/", "/a/b/c/", "/a%20b/", "/a b/"} {
				if d, ok := b.Tree[strings.TrimPrefix(pp, pre)]; ok && strings.HasPrefix(pp, pre) {
					return &Resp{Body: d}
				}
			}
			return nil
		})
		return o
	}
	base := func(dir string, o *Origin) tomlDoc {
		return tomlDoc{
			top: map[string]string{"listen_address": `"@ADDR@"`, "check_interval": "600", "cache_period": "3",
				"meta_dir": q(filepath.Join(dir, "meta")), "cache_dir": q(filepath.Join(dir, "cache")), "cache_capacity": "1", "max_conns": "10"},
			secs: map[string]map[string]string{"log": {"level": `"error"`, "format": `"plain"`}, "mapping": {"u": q(o.URL)}},
		}
	}
	type variant struct {
		name string
		f    func(d *tomlDoc, dir string, o *Origin)
		bad  bool
		// prefix and directory under which the repository is found
		prefix string
	}
	var vs []variant
	bad := func(name string, f func(d *tomlDoc, dir string, o *Origin)) {
		vs = append(vs, variant{name, f, true, ""})
	}
	good := func(name string, prefix string, f func(d *tomlDoc, dir string, o *Origin)) {
		vs = append(vs, variant{name, f, false, prefix})
	}
	set := func(k, v string) func(d *tomlDoc, dir string, o *Origin) {
		return func(d *tomlDoc, dir string, o *Origin) { d.top[k] = v }
	}
	setMap := func(k string, v func(o *Origin) string) func(d *tomlDoc, dir string, o *Origin) {
		return func(d *tomlDoc, dir string, o *Origin) {
			delete(d.secs["mapping"], "u")
			d.secs["mapping"][q(k)] = q(v(o))
		}
	}
	url := func(o *Origin) string { return o.URL }
	for _, v := range []string{"0", "-1", "-600"} {
		bad("check_interval "+v, set("check_interval", v))
		bad("cache_capacity "+v, set("cache_capacity", v))
	}
	for _, v := range []string{"-1", "-10"} {
		bad("max_conns "+v, set("max_conns", v))
	}
	for _, k := range []string{"meta_dir", "cache_dir"} {
		bad("no "+k, set(k, ""))
		bad("empty "+k, set(k, `""`))
		for _, v := range []string{"meta2", "./meta2", "../meta2", "."} {
			v := v
			bad(k+" relative "+v, func(d *tomlDoc, dir string, o *Origin) {
				os.MkdirAll(filepath.Join(dir, v), 0755)
				d.top[k] = q(v)
			})
		}
	}
	bad("identical directories", func(d *tomlDoc, dir string, o *Origin) { d.top["cache_dir"] = d.top["meta_dir"] })
	for _, form := range []string{"%s/meta/", "%s/./meta", "%s/x/../meta", "%s//meta", "%s/meta/."} {
		form := form
		bad("identical directories as "+form, func(d *tomlDoc, dir string, o *Origin) {
			d.top["cache_dir"] = q(fmt.Sprintf(form, dir))
		})
	}
	for _, k := range []string{"A", "Ubuntu", "a b", "", "a/b", "/a", "a/", "ä", "a%20b", "a:b", "a+b", "a~", "a@b", "a\\b", "uB", "\x01a", "a,b", "*"} {
		bad(fmt.Sprintf("prefix %q", k), setMap(k, url))
	}
	for _, u := range []string{"ftp://@/ubuntu", "file:///tmp", "@/ubuntu", "//@/ubuntu", "/ubuntu", "", "rsync://@/x", "httpx://@/", "htt p://@/", "http://%zz/", "gopher://@/", "https+insecure://@/", "ubuntu", "http//@/", ":@"} {
		u := u
		bad("URL "+u, setMap("u", func(o *Origin) string { return strings.ReplaceAll(u, "@", o.Addr) }))
		bad("another mapping with URL "+u, func(d *tomlDoc, dir string, o *Origin) {
			d.secs["mapping"]["v"] = q(strings.ReplaceAll(u, "@", o.Addr))
		})
	}
	bad("unknown key", set("cache_size", "1"))
	bad("unknown key in log", func(d *tomlDoc, dir string, o *Origin) { d.secs["log"]["colour"] = "true" })
	bad("unknown section", func(d *tomlDoc, dir string, o *Origin) { d.secs["mappings"] = map[string]string{"u": q(o.URL)} })
	bad("misspelt key", func(d *tomlDoc, dir string, o *Origin) { delete(d.top, "max_conns"); d.top["maxconns"] = "10" })
	bad("key with a dash", func(d *tomlDoc, dir string, o *Origin) { d.top["max-conns"] = "10" })
	bad("syntax error", set("check_interval", "600 seconds"))
	bad("wrong type", set("check_interval", `"600"`))
	bad("wrong type of max_conns", set("max_conns", `[1]`))
	bad("mapping to a number", func(d *tomlDoc, dir string, o *Origin) { d.secs["mapping"]["u"] = "5" })
	bad("log level", func(d *tomlDoc, dir string, o *Origin) { d.secs["log"]["level"] = `"loud"` })
	bad("log format", func(d *tomlDoc, dir string, o *Origin) { d.secs["log"]["format"] = `"xml"` })
	bad("no URL host port", setMap("u", func(o *Origin) string { return "http://" + o.Addr + "x/" }))

	good("as is", "u", func(d *tomlDoc, dir string, o *Origin) {})
	good("trailing slash", "u", setMap("u", func(o *Origin) string { return o.URL + "/" }))
	good("path", "u", setMap("u", func(o *Origin) string { return o.URL + "/ubuntu" }))
	good("path with slash", "u", setMap("u", func(o *Origin) string { return o.URL + "/ubuntu/" }))
	good("long path", "u", setMap("u", func(o *Origin) string { return o.URL + "/a/b/c" }))
	good("escaped path", "u", setMap("u", func(o *Origin) string { return o.URL + "/a%20b" }))
	good("escaped path with slash", "u", setMap("u", func(o *Origin) string { return o.URL + "/a%20b/" }))
	good("host name", "u", setMap("u", func(o *Origin) string {
		return strings.Replace(o.URL, "127.0.0.1", "localhost", 1)
	}))
	good("upper-case scheme", "u", setMap("u", func(o *Origin) string { return strings.Replace(o.URL, "http", "HTTP", 1) }))
	for _, k := range []string{"ubuntu-18.04_x", "0", "a.b", "-", "_", "a-", "..a", "9.9"} {
		good("prefix "+k, k, setMap(k, url))
	}
	good("no check_interval", "u", set("check_interval", ""))
	good("no cache_period", "u", set("cache_period", ""))
	good("cache_period 0", "u", set("cache_period", "0"))
	good("no cache_capacity", "u", set("cache_capacity", ""))
	good("no max_conns", "u", set("max_conns", ""))
	good("max_conns 0", "u", set("max_conns", "0"))
	good("max_conns 1", "u", set("max_conns", "1"))
	good("directories not clean", "u", func(d *tomlDoc, dir string, o *Origin) {
		d.top["meta_dir"], d.top["cache_dir"] = q(dir+"/x/../meta/"), q(dir+"//./cache/")
	})
	good("directories that begin alike", "u", func(d *tomlDoc, dir string, o *Origin) {
		d.top["meta_dir"], d.top["cache_dir"] = q(dir+"/d"), q(dir+"/dd")
	})
	good("no log section", "u", func(d *tomlDoc, dir string, o *Origin) { delete(d.secs, "log") })
	for _, f := range []string{"plain", "logfmt", "json"} {
		f := f
		good("log to a file as "+f, "u", func(d *tomlDoc, dir string, o *Origin) {
			d.secs["log"] = map[string]string{"filename": q(filepath.Join(dir, "log.txt")), "level": `"info"`, "format": q(f)}
		})
	}
	for k := range vs {
		v, k := vs[k], k
		add(func() {
			o := newO()
			defer o.Close()
			dir := c.Dir("g01c")
			for _, d := range []string{"meta", "cache", "d", "dd", "x"} {
				must(os.Mkdir(filepath.Join(dir, d), 0755))
			}
			d := base(dir, o)
			v.f(&d, dir, o)
			cc := CacherConf{Dir: dir, Raw: d.String()}
			if !v.bad {
				g01Good(c, v.name, v.prefix, cc, d, dir, o, b, deb)
				return
			}
			before, err := readTree(dir)
			must(err)
			p := c.launchCacher(cc, nil)
			up := false
			for end := time.Now().Add(60 * time.Second); ; {
				select {
				case <-p.exited:
				default:
					if conn, err := net.DialTimeout("tcp", p.Addr, time.Second); err == nil {
						conn.Close()
						up = true
					} else if time.Now().Before(end) {
						time.Sleep(10 * time.Millisecond)
						continue
					}
				}
				break
			}
			if up || p.Alive() {
				// only the listening port of this run can have been meant
				time.Sleep(200 * time.Millisecond)
				if p.Alive() {
					p.Kill()
					c.Violate(d.String(), "go-apt-cacher accepts a configuration with %s", v.name)
					return
				}
			}
			if code := p.cmd.ProcessState.ExitCode(); code == 0 || code == -1 {
				c.Violate(map[string]interface{}{"config": d.String(), "stderr": p.stderr.String()}, "go-apt-cacher ends with status %d for a configuration with %s", code, v.name)
				return
			}
			if strings.Contains(p.stderr.String(), "goroutine ") {
				c.Violate(map[string]interface{}{"config": d.String(), "stderr": p.stderr.String()}, "go-apt-cacher panics for a configuration with %s", v.name)
				return
			}
			if strings.TrimSpace(p.stderr.String()) == "" {
				c.Violate(d.String(), "go-apt-cacher says nothing about a configuration with %s", v.name)
				return
			}
			if n := o.Hits(""); n > 0 {
				c.Violate(d.String(), "go-apt-cacher fetched %d files although the configuration has %s", n, v.name)
				return
			}
			after, err := readTree(dir)
			must(err)
			for pth := range files(after) {
				if _, ok := before[pth]; !ok && !strings.HasPrefix(filepath.Base(pth), "conf-") {
					c.Violate(d.String(), "go-apt-cacher wrote %s although the configuration has %s", pth, v.name)
					return
				}
			}
			c.Count("configurations_rejected", 1)
			c.Eval("cacher, bad: " + v.name)
			if k < 2 {
				c.Sample(map[string]interface{}{"rejected": v.name, "message": tail(p.stderr.String(), 200)})
			}
		})
	}
	add(func() { g01HTTPS(c, b, deb) })
	add(func() { g01Proxy(c, b, deb) })
	add(func() { g01CacherValues(c, b) })
	add(func() { g01CacherFlags(c, b, deb) })
}

// g01Good checks that a configuration works as it says.
func g01Good(c *Ctx, name, prefix string, cc CacherConf, d tomlDoc, dir string, o *Origin, b *Built, deb string) {
	p, err := c.TryStartCacher(cc)
	if err != nil {
		c.Violate(map[string]interface{}{"config": d.String(), "error": fmt.Sprint(err)}, "go-apt-cacher rejects a configuration that is fine (%s)", name)
		return
	}
	defer p.Kill()
	for _, f := range []string{"dists/t/Release", "dists/t/main/binary-amd64/Packages", deb} {
		r := p.Get(prefix+"/"+f, o)
		if r.Stuck != "" || r.Err != nil || r.Status != 200 || string(r.Body) != string(b.Tree[f]) {
			c.Violate(map[string]interface{}{"config": d.String(), "status": r.Status, "file": f}, "%s: %s/%s is not served", name, prefix, f)
			return
		}
	}
	if r := p.Get("nosuch/"+deb, o); r.Status != 404 {
		c.Violate(d.String(), "%s: an unmapped prefix is answered with %d", name, r.Status)
		return
	}
	// where the files go
	unq := func(s string) string { return filepath.Clean(strings.Trim(s, `"`)) }
	for dd, f := range map[string]string{"meta_dir": "dists/t/Release", "cache_dir": deb} {
		t, err := readTree(unq(d.top[dd]))
		must(err)
		found := false
		for _, s := range files(t) {
			found = found || s == sha(b.Tree[f])
		}
		if !found {
			c.Violate(d.String(), "%s: %s is not stored in %s", name, f, dd)
			return
		}
	}
	if fn := d.secs["log"]["filename"]; fn != "" {
		data, _ := os.ReadFile(unq(fn))
		if len(data) == 0 {
			c.Violate(d.String(), "%s: nothing is logged to the configured file", name)
			return
		}
		if isJSON := strings.HasPrefix(string(data), "{"); isJSON != strings.Contains(d.secs["log"]["format"], "json") {
			c.Violate(d.String(), "%s: the log has another format", name)
			return
		}
	}
	c.Count("configurations_honoured", 1)
	c.Eval("cacher, good: " + name)
}

// tlsOrigin serves an origin over TLS as well; the certificate is written to
// a file.
func (c *Ctx) tlsOrigin(o *Origin) (*httptest.Server, string) {
	srv := httptest.NewUnstartedServer(o)
	srv.StartTLS()
	ca := filepath.Join(c.Dir("tls"), "ca.pem")
	must(os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: srv.Certificate().Raw}), 0644))
	return srv, ca
}

func g01HTTPS(c *Ctx, b *Built, deb string) {
	for _, trusted := range []bool{true, false} {
		o := NewOrigin()
		defer o.Close()
		o.SetTree(b.Tree)
		srv, ca := c.tlsOrigin(o)
		defer srv.Close()
		srv.Config.ErrorLog = nil
		cc := c.DefaultConf(map[string]string{"u": srv.URL})
		if trusted {
			cc.Env = []string{"SSL_CERT_FILE=" + ca}
		}
		p := c.StartCacher(cc)
		defer p.Kill()
		r := p.Get("u/"+deb, o)
		if trusted && (r.Status != 200 || string(r.Body) != string(b.Tree[deb])) {
			c.Violate(map[string]interface{}{"status": r.Status, "stuck": r.Stuck}, "a file of an https repository is not served")
			return
		}
		if !trusted && r.Status == 200 {
			c.Violate(nil, "a file of an https repository with an untrusted certificate is served")
			return
		}
		c.Eval(fmt.Sprintf("cacher, https trusted=%v", trusted))
	}
}

func g01Proxy(c *Ctx, b *Built, deb string) {
	o := NewOrigin()
	defer o.Close()
	o.SetTree(b.Tree)
	cc := c.DefaultConf(map[string]string{"u": "http://repo.example"})
	cc.Env = []string{"HTTP_PROXY=" + o.URL, "http_proxy=" + o.URL}
	p := c.StartCacher(cc)
	defer p.Kill()
	if r := p.Get("u/"+deb, o); r.Status != 200 || string(r.Body) != string(b.Tree[deb]) {
		c.Violate(map[string]interface{}{"status": r.Status}, "go-apt-cacher does not reach a repository through the proxy of its environment")
		return
	}
	c.Eval("cacher, proxy")
}

// g01CacherValues watches defaults at work.
func g01CacherValues(c *Ctx, b *Built) {
	if d := cacher.NewConfig(); d.Addr != ":3142" || d.CheckInterval != 600 || d.CachePeriod != 3 || d.CacheCapacity != 1 || d.MaxConns != 10 {
		c.Violate(d, "cacher.NewConfig does not hold the documented defaults")
		return
	}
	if d := mirror.NewConfig(); d.MaxConns != 10 {
		c.Violate(d, "mirror.NewConfig does not hold the documented defaults")
		return
	}
	o := NewOrigin()
	defer o.Close()
	gate := make(chan struct{})
	var once sync.Once
	defer once.Do(func() { close(gate) })
	o.Handle(func(pp string, n int, r *http.Request) *Resp {
		switch {
		case strings.HasPrefix(pp, "/held/"):
			return &Resp{Body: []byte("x"), Gate: gate}
		case strings.HasPrefix(pp, "/fail"):
			return &Resp{Status: 404, Body: []byte("no")}
		}
		return nil
	})
	dir := c.Dir("g01v")
	for _, d := range []string{"meta", "cache/old"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0755))
	}
	// more than 1 GiB on disk (sparse)
	for k := 0; k < 24; k++ {
		fp := filepath.Join(dir, "cache/old", fmt.Sprintf("f%02d.deb.cache", k))
		must(os.WriteFile(fp, nil, 0644))
		must(os.Truncate(fp, 64<<20))
	}
	cc := CacherConf{Dir: dir, Raw: fmt.Sprintf("listen_address = \"@ADDR@\"\nmeta_dir = %s\ncache_dir = %s\n[mapping]\nu = %s\n", q(filepath.Join(dir, "meta")), q(filepath.Join(dir, "cache")), q(o.URL))}
	p, err := c.TryStartCacher(cc)
	if err != nil {
		c.Violate(fmt.Sprint(err), "a configuration without optional keys is rejected")
		return
	}
	defer p.Kill()
	// cache_period: 3 seconds
	t1 := time.Now()
	p.Get("u/fail", o)
	n1 := o.Hits("/fail")
	for time.Since(t1) < 1500*time.Millisecond {
		p.Get("u/fail", o)
		if n := o.Hits("/fail"); n != n1 && time.Since(t1) < 2500*time.Millisecond {
			c.Violate(nil, "by default errors are not remembered for 3 seconds: asked again after %v", time.Since(t1))
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	if !waitFor(30*time.Second, func() bool { p.Get("u/fail", o); return o.Hits("/fail") > n1 }) {
		c.Violate(nil, "by default errors are remembered for more than 30 seconds instead of 3")
		return
	}
	// max_conns: 10
	var wg sync.WaitGroup
	for k := 0; k < 24; k++ {
		wg.Add(1)
		k := k
		go func() { defer wg.Done(); p.Get(fmt.Sprintf("u/held/%d", k), o) }()
	}
	waitFor(20*time.Second, func() bool { return o.Inflight() >= 10 })
	time.Sleep(300 * time.Millisecond)
	n := o.Inflight()
	once.Do(func() { close(gate) })
	wg.Wait()
	if n != 10 {
		c.Violate(nil, "by default %d connections to an upstream are used at once instead of 10", n)
		return
	}
	// capacity: 1 GiB
	total := int64(0)
	filepath.Walk(filepath.Join(dir, "cache"), func(_ string, st os.FileInfo, err error) error {
		if err == nil && st.Mode().IsRegular() {
			total += st.Size()
		}
		return nil
	})
	if total > 1<<30 || total < 1<<30-2*(64<<20) {
		c.Violate(nil, "by default the cache holds %d bytes instead of 1 GiB", total)
		return
	}
	c.Eval("cacher, defaults")
	// the default address
	ln, err := net.Listen("tcp", ":3142")
	if err != nil {
		c.Count("default_port_taken", 1)
		return
	}
	ln.Close()
	for _, la := range []string{"", "listen_address = \"\"\n"} {
		d2 := c.Dir("g01d")
		for _, d := range []string{"meta", "cache"} {
			must(os.MkdirAll(filepath.Join(d2, d), 0755))
		}
		cc = CacherConf{Dir: d2, Raw: fmt.Sprintf("%smeta_dir = %s\ncache_dir = %s\n[mapping]\nu = %s\n", la, q(filepath.Join(d2, "meta")), q(filepath.Join(d2, "cache")), q(o.URL))}
		p2 := c.launchCacher(cc, nil)
		p2.Addr = "127.0.0.1:3142"
		if !p2.waitUp() {
			if strings.Contains(p2.stderr.String(), "address already in use") {
				c.Count("default_port_taken", 1)
				return
			}
			c.Violate(p2.stderr.String(), "go-apt-cacher does not listen on port 3142 by default")
			return
		}
		if r := p2.Get("u/held/1", o); r.Status != 200 {
			c.Violate(r.Status, "go-apt-cacher does not serve on port 3142 by default")
		}
		p2.Kill()
		<-p2.exited
	}
	c.Eval("cacher, default address")
}

// g01CacherFlags: no configuration file, an unreadable one.
func g01CacherFlags(c *Ctx, b *Built, deb string) {
	for _, bin := range []string{"go-apt-cacher", "go-apt-mirror"} {
		for _, arg := range []string{"/nonexistent/x.toml", c.Work} {
			mc := MirrorConf{Dir: c.Dir("flags")}
			p := &MirrorProc{cmd: c.mirrorCmd(mc), stderr: &lockedBuf{}, exited: make(chan struct{}), start: time.Now()}
			p.cmd.Path = filepath.Join(c.Bin, "race", bin)
			p.cmd.Args = []string{bin, "-f", arg}
			p.cmd.Stdout, p.cmd.Stderr = p.stderr, p.stderr
			must(startCmd(p.cmd))
			trackProc(p.cmd.Process)
			go func() { p.err = p.cmd.Wait(); untrackProc(p.cmd.Process); close(p.exited) }()
			if r := p.Result(); r.Code != 1 && r.Code != 2 || r.Stuck != "" || strings.Contains(r.Stderr, "goroutine ") {
				c.Violate(r.String(), "%s with configuration %s: unexpected end", bin, arg)
				return
			}
			c.Eval(bin + " without configuration " + arg)
		}
	}
}

// ---------------------------------------------------------------- mirror

func g01Mirror(c *Ctx, add func(func())) {
	type variant struct {
		name string
		f    func(d *tomlDoc, s *scene)
		bad  bool
	}
	var vs []variant
	bad := func(name string, f func(d *tomlDoc, s *scene)) { vs = append(vs, variant{name, f, true}) }
	good := func(name string, f func(d *tomlDoc, s *scene)) { vs = append(vs, variant{name, f, false}) }
	set := func(k, v string) func(d *tomlDoc, s *scene) {
		return func(d *tomlDoc, s *scene) { d.top[k] = v }
	}
	setM := func(k, v string) func(d *tomlDoc, s *scene) {
		return func(d *tomlDoc, s *scene) { d.secs["mirror.m"][k] = v }
	}
	bad("no dir", set("dir", ""))
	bad("empty dir", set("dir", `""`))
	for _, v := range []string{"mirror", "./mirror", "../mirror", "."} {
		bad("relative dir "+v, set("dir", q(v)))
	}
	bad("dir that does not exist", func(d *tomlDoc, s *scene) { d.top["dir"] = q(s.mc.Dir + "/no/such") })
	bad("negative max_conns", set("max_conns", "-1"))
	bad("very negative max_conns", set("max_conns", "-100"))
	bad("unknown key", set("threads", "1"))
	bad("unknown key in mirror", setM("components", `["main"]`))
	bad("misspelt key in mirror", func(d *tomlDoc, s *scene) {
		delete(d.secs["mirror.m"], "mirror_source")
		d.secs["mirror.m"]["mirror_sources"] = "true"
	})
	bad("unknown key in log", func(d *tomlDoc, s *scene) { d.secs["log"]["x"] = "1" })
	bad("unknown section", func(d *tomlDoc, s *scene) { d.secs["mirrors.x"] = map[string]string{"url": q(s.o.URL)} })
	bad("log level", func(d *tomlDoc, s *scene) { d.secs["log"]["level"] = `"loud"` })
	bad("syntax error", set("max_conns", "ten"))
	bad("wrong type", set("max_conns", `"10"`))
	bad("suites as a string", setM("suites", `"t"`))
	bad("no url", setM("url", ""))
	bad("no suites", setM("suites", ""))
	bad("empty suites", setM("suites", "[]"))
	bad("flat with sections", func(d *tomlDoc, s *scene) {
		d.secs["mirror.m"]["suites"] = `["f/"]`
		d.secs["mirror.m"]["architectures"] = ""
	})
	bad("flat with architectures", func(d *tomlDoc, s *scene) {
		d.secs["mirror.m"]["suites"] = `["f/"]`
		d.secs["mirror.m"]["sections"] = ""
	})
	for _, l := range []string{`["t", "f/"]`, `["f/", "t"]`, `["t", "t2", "/"]`, `["f/", "t", "f/"]`, `["t", "f/", "t"]`, `["t", "f/", "t2"]`, `["f/", "g/", "t", "h/"]`, `["t", "t2", "f/", "g/", "t"]`, `["/", "t", "t2", "/"]`} {
		l := l
		bad("mixed suites "+l, func(d *tomlDoc, s *scene) {
			d.secs["mirror.m"]["suites"] = l
			if strings.HasPrefix(l, `["f/"`) {
				d.secs["mirror.m"]["sections"], d.secs["mirror.m"]["architectures"] = "", ""
			}
		})
	}
	for _, u := range []string{"ftp://@/ubuntu", "file:///tmp", "@/ubuntu", "//@/ubuntu", "/ubuntu", "", "rsync://@/x", "httpx://@/", "http://%zz/", "ubuntu", ":@"} {
		u := u
		bad("URL "+u, func(d *tomlDoc, s *scene) { d.secs["mirror.m"]["url"] = q(strings.ReplaceAll(u, "@", s.o.Addr)) })
	}
	for _, id := range []string{"M", "Ubuntu", "a.b", "a b", "ä", "a/b", "../x", "a:b", "a+b", "", "."} {
		id := id
		bad(fmt.Sprintf("mirror name %q", id), func(d *tomlDoc, s *scene) {
			d.secs["mirror."+q(id)] = d.secs["mirror.m"]
			delete(d.secs, "mirror.m")
		})
		bad(fmt.Sprintf("second mirror with name %q", id), func(d *tomlDoc, s *scene) {
			d.secs["mirror."+q(id)] = d.secs["mirror.m"]
		})
	}
	bad("a second mirror without suites", func(d *tomlDoc, s *scene) { d.secs["mirror.n"] = map[string]string{"url": q(s.o.URL)} })
	bad("a second mirror without url", func(d *tomlDoc, s *scene) { d.secs["mirror.n"] = map[string]string{"suites": `["t"]`} })
	bad("a second mirror that mixes", func(d *tomlDoc, s *scene) {
		d.secs["mirror.n"] = map[string]string{"url": q(s.o.URL), "suites": `["t", "f/"]`, "sections": `["main"]`, "architectures": `["amd64"]`}
	})

	good("as is", func(d *tomlDoc, s *scene) {})
	good("trailing slash", func(d *tomlDoc, s *scene) { d.secs["mirror.m"]["url"] = q(s.o.URL + "/") })
	for _, p := range []string{"/ubuntu", "/ubuntu/", "/a/b/c", "/a%20b", "/a%20b/"} {
		p := p
		good("path "+p, func(d *tomlDoc, s *scene) { d.secs["mirror.m"]["url"] = q(s.o.URL + p) })
	}
	good("user and password", func(d *tomlDoc, s *scene) {
		d.secs["mirror.m"]["url"] = q(strings.Replace(s.o.URL, "http://", "http://user:p%40ss@", 1) + "/priv")
	})
	good("no max_conns", set("max_conns", ""))
	good("max_conns 0", set("max_conns", "0"))
	good("max_conns 1", set("max_conns", "1"))
	good("no log section", func(d *tomlDoc, s *scene) { delete(d.secs, "log") })
	good("sources", func(d *tomlDoc, s *scene) { d.secs["mirror.m"]["mirror_source"] = "true"; s.def.Source = true })
	good("no sources", func(d *tomlDoc, s *scene) { d.secs["mirror.m"]["mirror_source"] = "false"; s.def.Source = false })
	good("sources by default", func(d *tomlDoc, s *scene) { delete(d.secs["mirror.m"], "mirror_source"); s.def.Source = false })
	good("another section", func(d *tomlDoc, s *scene) {
		d.secs["mirror.m"]["sections"] = `["main/debian-installer"]`
		s.def.Sections = []string{"main/debian-installer"}
	})
	good("both sections", func(d *tomlDoc, s *scene) {
		d.secs["mirror.m"]["sections"] = `["main", "main/debian-installer"]`
		s.def.Sections = []string{"main", "main/debian-installer"}
	})
	good("other architecture", func(d *tomlDoc, s *scene) {
		d.secs["mirror.m"]["architectures"] = `["i386"]`
		s.def.Archs = []string{"i386"}
	})
	good("no architectures", func(d *tomlDoc, s *scene) {
		delete(d.secs["mirror.m"], "architectures")
		s.def.Archs = nil
	})
	good("no sections", func(d *tomlDoc, s *scene) {
		delete(d.secs["mirror.m"], "sections")
		s.def.Sections = nil
	})
	good("one suite of two", func(d *tomlDoc, s *scene) {
		d.secs["mirror.m"]["suites"] = `["t/updates"]`
		s.def.Suites = []string{"t/updates"}
	})
	good("dir not clean", func(d *tomlDoc, s *scene) { d.top["dir"] = q(s.mc.Dir + "/../" + filepath.Base(s.mc.Dir) + "//") })
	for _, f := range []string{"plain", "logfmt", "json"} {
		f := f
		good("log to a file as "+f, func(d *tomlDoc, s *scene) {
			d.secs["log"] = map[string]string{"filename": q(filepath.Join(filepath.Dir(s.mc.Dir), filepath.Base(s.mc.Dir)+".log")), "level": `"info"`, "format": q(f)}
		})
	}
	for k := range vs {
		v, k := vs[k], k
		add(func() {
			rng := c.Rng("mirror " + v.name)
			fam := allSums
			g := GenOpts{Suites: []string{"t", "t/updates"}, Sections: []string{"main", "main/debian-installer"}, Archs: []string{"amd64", "i386"}, PkgsPer: 1, MaxSize: 200, Exts: []string{""}, Sums: &fam, Source: true}
			s := c.newScene(rng, g)
			defer s.o.Close()
			s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
				if d, ok := s.b.Tree[strings.TrimPrefix(pp, "/priv/")]; ok && strings.HasPrefix(pp, "/priv/") {
					if u, pw, _ := r.BasicAuth(); u != "user" || pw != "p@ss" {
						return &Resp{Status: 401}
					}
					return &Resp{Body: d}
				}
				for _, pre := range []string{"/ubuntu/", "/a/b/c/", "/a b/"} {
					if d, ok := s.b.Tree[strings.TrimPrefix(pp, pre)]; ok && strings.HasPrefix(pp, pre) {
						return &Resp{Body: d}
					}
				}
				return nil
			})
			s.def.Sections, s.def.Archs, s.def.Source = []string{"main"}, []string{"amd64"}, false
			d := tomlDoc{
				top: map[string]string{"dir": q(s.mc.Dir), "max_conns": "10"},
				secs: map[string]map[string]string{"log": {"level": `"error"`},
					"mirror.m": {"url": q(s.o.URL), "suites": `["t", "t/updates"]`, "sections": `["main"]`, "architectures": `["amd64"]`, "mirror_source": "false"}},
			}
			v.f(&d, s)
			mc := s.mc
			mc.Raw = d.String()
			r := c.RunMirror(mc, nil, s.o)
			wit := map[string]interface{}{"config": mc.Raw, "run": r.String()}
			if !v.bad {
				want := mirrorWants(s.repo, s.b, s.def)
				if r.Code != 0 || r.Stuck != "" {
					c.Violate(wit, "go-apt-mirror fails with a configuration that is fine (%s)", v.name)
					return
				}
				if !c.expectPublished(s.mc.Dir, "m", want, "configuration: "+v.name) {
					return
				}
				if fn := d.secs["log"]["filename"]; fn != "" {
					if data, _ := os.ReadFile(strings.Trim(fn, `"`)); len(data) == 0 || strings.HasPrefix(string(data), "{") != strings.Contains(v.name, "json") {
						c.Violate(wit, "%s: the log is not written as configured", v.name)
						return
					}
				}
				c.Count("configurations_honoured", 1)
				c.Eval("mirror, good: " + v.name)
				return
			}
			if r.Code != 1 && r.Code != 2 || r.Stuck != "" || strings.Contains(r.Stderr, "goroutine ") {
				c.Violate(wit, "go-apt-mirror ends with status %d for a configuration with %s", r.Code, v.name)
				return
			}
			if strings.TrimSpace(r.Stderr) == "" {
				c.Violate(wit, "go-apt-mirror says nothing about a configuration with %s", v.name)
				return
			}
			if n := s.o.Hits(""); n > 0 {
				c.Violate(wit, "go-apt-mirror fetched %d files although the configuration has %s", n, v.name)
				return
			}
			for _, n := range dirNames(s.mc.Dir) {
				if n != ".lock" {
					c.Violate(wit, "go-apt-mirror made %s although the configuration has %s", n, v.name)
					return
				}
			}
			c.Count("configurations_rejected", 1)
			c.Eval("mirror, bad: " + v.name)
			if k < 2 {
				c.Sample(map[string]interface{}{"rejected": v.name, "message": tail(r.Stderr, 200)})
			}
		})
	}
}

// g01Defaults: the default limit of go-apt-mirror at work, https, proxy.
func g01Defaults(c *Ctx) {
	rng := c.Rng("defaults")
	fam := allSums
	g := GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 30, MaxSize: 100, Exts: []string{""}, Sums: &fam}
	s := c.newScene(rng, g)
	defer s.o.Close()
	gate := make(chan struct{})
	s.o.Handle(func(pp string, n int, r *http.Request) *Resp {
		if p := strings.TrimPrefix(pp, "/"); s.b.Items[p] {
			return &Resp{Body: s.b.Tree[p], Gate: gate}
		}
		return nil
	})
	mc := s.mc
	mc.Raw = strings.Replace(s.mc.toml(), "max_conns = 10\n", "", 1)
	m := c.StartMirror(mc)
	waitFor(20*time.Second, func() bool { return s.o.Inflight() >= 10 || !m.running() })
	time.Sleep(300 * time.Millisecond)
	n := s.o.Inflight()
	close(gate)
	r := m.Result(s.o)
	if r.Code != 0 || n != 10 {
		c.Violate(map[string]interface{}{"run": r.String()}, "by default go-apt-mirror has %d transfers in progress instead of 10", n)
		return
	}
	c.Eval("mirror, default limit")
	// https
	for _, trusted := range []bool{true, false} {
		s := c.newScene(rng, GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 2, MaxSize: 100, Exts: []string{""}, Sums: &fam})
		defer s.o.Close()
		srv, ca := c.tlsOrigin(s.o)
		defer srv.Close()
		s.def.URL = srv.URL
		s.mc.Mirrors["m"] = s.def
		if trusted {
			s.mc.Env = []string{"SSL_CERT_FILE=" + ca}
			c.expectRun(s, "https repository")
		} else {
			if r := c.RunMirror(s.mc, nil); r.Code == 0 {
				c.Violate(nil, "an https repository with an untrusted certificate was mirrored")
			}
		}
		c.Eval(fmt.Sprintf("mirror, https trusted=%v", trusted))
	}
	// proxy
	s2 := c.newScene(rng, GenOpts{Suites: []string{"t"}, Sections: []string{"main"}, Archs: []string{"amd64"}, PkgsPer: 2, MaxSize: 100, Exts: []string{""}, Sums: &fam})
	defer s2.o.Close()
	s2.def.URL = "http://repo.example/"
	s2.mc.Mirrors["m"] = s2.def
	s2.mc.Env = []string{"HTTP_PROXY=" + s2.o.URL, "http_proxy=" + s2.o.URL}
	if c.expectRun(s2, "repository behind a proxy") {
		c.Eval("mirror, proxy")
	}
}
