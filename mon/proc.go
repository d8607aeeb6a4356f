package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/cybozu-go/log"
)

func quietLogs() {
	log.DefaultLogger().SetThreshold(log.LvCritical)
	log.DefaultLogger().SetOutput(io.Discard)
}

var (
	procMu  sync.Mutex
	procSet = map[*os.Process]struct{}{}
)

func trackProc(p *os.Process)   { procMu.Lock(); procSet[p] = struct{}{}; procMu.Unlock() }
func untrackProc(p *os.Process) { procMu.Lock(); delete(procSet, p); procMu.Unlock() }
func killAllProcs() {
	procMu.Lock()
	defer procMu.Unlock()
	for p := range procSet {
		p.Kill()
	}
}

var portSeq = int64(os.Getpid() % 1000 * 17)

// freePort returns a port that nothing else in this process gets: below the
// range of ports the system hands out itself, and never twice.
func freePort() int {
	for {
		port := 10000 + int(atomic.AddInt64(&portSeq, 1)%22000)
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			continue
		}
		ln.Close()
		return port
	}
}

var (
	spawnOnce sync.Once
	spawnCh   chan func()
)

// startCmd starts a command from a thread of its own: a tracer thread waits
// for its children and must not have others.
func startCmd(cmd *exec.Cmd) error {
	spawnOnce.Do(func() {
		spawnCh = make(chan func())
		go func() {
			runtime.LockOSThread()
			for f := range spawnCh {
				f()
			}
		}()
	})
	errc := make(chan error, 1)
	spawnCh <- func() { errc <- cmd.Start() }
	return <-errc
}

// CacherConf configures a cacher process.
type CacherConf struct {
	Dir           string // holds meta/ and cache/ (created by the cacher)
	CheckInterval int
	CachePeriod   int
	Capacity      int
	MaxConns      int
	Mapping       map[string]string
	LogLevel      string
	Raw           string // replaces the whole file
	Plain         bool   // binary without race detector
	Env           []string
	Files         int    // limit of open files
	Yield         uint64 // seed of injected delays; 0 for none
	LogMax        int    // bytes of output kept; 0 for 1 MiB
}

// CacherProc is a running go-apt-cacher.
type CacherProc struct {
	Conf    CacherConf
	Addr    string
	cmd     *exec.Cmd
	stderr  *lockedBuf
	exited  chan struct{}
	exitErr error
	Client  *http.Client
}

type lockedBuf struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int // 0 for 1 MiB
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 || l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var raceSeq int64

func (c *Ctx) raceEnv() []string {
	n := atomic.AddInt64(&raceSeq, 1)
	return []string{"GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path=" + filepath.Join(c.Work, "race", fmt.Sprintf("race.p%d", n))}
}

func q(s string) string { return fmt.Sprintf("%q", s) }

// WriteCacherConf writes the TOML file.
func (cc *CacherConf) toml(addr string) string {
	if cc.Raw != "" {
		return strings.ReplaceAll(cc.Raw, "@ADDR@", addr)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "listen_address = %s\ncheck_interval = %d\ncache_period = %d\n", q(addr), cc.CheckInterval, cc.CachePeriod)
	fmt.Fprintf(&b, "meta_dir = %s\ncache_dir = %s\ncache_capacity = %d\nmax_conns = %d\n",
		q(filepath.Join(cc.Dir, "meta")), q(filepath.Join(cc.Dir, "cache")), cc.Capacity, cc.MaxConns)
	lv := cc.LogLevel
	if lv == "" {
		lv = "error"
	}
	fmt.Fprintf(&b, "[log]\nlevel = %s\nformat = \"plain\"\n[mapping]\n", q(lv))
	var ks []string
	for k := range cc.Mapping {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s = %s\n", q(k), q(cc.Mapping[k]))
	}
	return b.String()
}

// DefaultConf returns sane values for tests: no automatic refresh.
func (c *Ctx) DefaultConf(mapping map[string]string) CacherConf {
	return CacherConf{Dir: c.Dir("cacher"), CheckInterval: 3600, CachePeriod: 3600, Capacity: 1, MaxConns: 10, Mapping: mapping}
}

// StartCacher runs go-apt-cacher and waits until it listens.
func (c *Ctx) StartCacher(cc CacherConf) *CacherProc {
	p, err := c.TryStartCacher(cc)
	if err != nil {
		giveUp("cacher did not start: %v", err)
	}
	return p
}

var errExited = errors.New("process exited")

// TryStartCacher returns an error with the output if the cacher exits
// instead of listening.
func (c *Ctx) TryStartCacher(cc CacherConf) (*CacherProc, error) {
	for try := 0; ; try++ {
		p := c.launchCacher(cc, nil)
		ok := p.waitUp()
		if ok {
			return p, nil
		}
		out := p.stderr.String()
		if strings.Contains(out, "address already in use") && try < 10 {
			continue
		}
		return p, fmt.Errorf("%w: %v: %s", errExited, p.exitErr, tail(out, 2000))
	}
}

// yieldEnv switches injected delays on: with the given seed, or, if it is
// 0, in one of three processes of the checks listed in yielding.
func (c *Ctx) yieldEnv(seed uint64) []string {
	if seed == 0 && yielding[c.ID] {
		if n := uint64(atomic.AddInt64(&c.launches, 1)); n%3 == 0 {
			seed = n*1000003 + uint64(c.Seed)
		}
	}
	if seed == 0 {
		return nil
	}
	c.Count("processes_with_injected_delays", 1)
	return []string{fmt.Sprintf("VERIF_YIELD=%d", seed)}
}

// yielding lists the checks that run with injected delays at times.
var yielding = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C10": true, "C13": true, "C14": true, "C15": true, "C16": true,
	"M03": true, "M04": true, "M06": true, "M08": true, "M09": true, "M10": true, "M12": true, "M13": true, "M15": true}

func (c *Ctx) launchCacher(cc CacherConf, wrap func(cmd *exec.Cmd) error) *CacherProc {
	addr := fmt.Sprintf("127.0.0.1:%d", freePort())
	conf := filepath.Join(cc.Dir, fmt.Sprintf("conf-%d.toml", atomic.AddInt64(&c.dirSeq, 1)))
	must(os.WriteFile(conf, []byte(cc.toml(addr)), 0644))
	bin := filepath.Join(c.Bin, "race", "go-apt-cacher")
	if cc.Plain {
		bin = filepath.Join(c.Bin, "plain", "go-apt-cacher")
	}
	p := &CacherProc{Conf: cc, Addr: addr, stderr: &lockedBuf{max: cc.LogMax}, exited: make(chan struct{})}
	p.cmd = exec.Command(bin, "-f", conf)
	if cc.Files > 0 {
		p.cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf("ulimit -n %d; exec \"$0\" \"$@\"", cc.Files), bin, "-f", conf)
	}
	p.cmd.Stdout, p.cmd.Stderr = p.stderr, p.stderr
	p.cmd.Dir = cc.Dir
	p.cmd.Env = append(cleanEnv(), "TMPDIR="+cc.Dir, "HOME="+cc.Dir, "CANCELLATION_DELAY_SECONDS=0")
	p.cmd.Env = append(p.cmd.Env, c.raceEnv()...)
	p.cmd.Env = append(p.cmd.Env, cc.Env...)
	p.cmd.Env = append(p.cmd.Env, c.yieldEnv(cc.Yield)...)
	p.Client = newClient()
	if wrap != nil {
		must(wrap(p.cmd))
	} else {
		must(startCmd(p.cmd))
	}
	trackProc(p.cmd.Process)
	go func() {
		p.exitErr = p.cmd.Wait()
		untrackProc(p.cmd.Process)
		close(p.exited)
	}()
	return p
}

func newClient() *http.Client {
	return &http.Client{Transport: &http.Transport{
		DisableCompression: true, MaxIdleConnsPerHost: 64,
		DialContext: (&net.Dialer{}).DialContext,
	}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

func (p *CacherProc) waitUp() bool {
	deadline := time.Now().Add(120 * time.Second)
	for time.Now().Before(deadline) {
		select {
		case <-p.exited:
			return false
		default:
		}
		conn, err := net.DialTimeout("tcp", p.Addr, time.Second)
		if err == nil {
			conn.Close()
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	giveUp("cacher does not listen after 120 s")
	return false
}

// Alive tells if the process runs.
func (p *CacherProc) Alive() bool {
	select {
	case <-p.exited:
		return false
	default:
		return true
	}
}

// Kill ends the process with SIGKILL.
func (p *CacherProc) Kill() {
	p.cmd.Process.Kill()
	<-p.exited
	p.Client.CloseIdleConnections()
}

// Term sends SIGTERM and waits; false if it does not end in time.
func (p *CacherProc) Term(d time.Duration) bool {
	p.Client.CloseIdleConnections()
	p.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-p.exited:
		return true
	case <-time.After(d):
		return false
	}
}

// Reply is what a client got.
type Reply struct {
	Path   string
	Call   int64
	Ret    int64
	Status int
	Body   []byte
	Header http.Header
	Err    error
	Stuck  string // why the request is considered never answered
}

func (r *Reply) String() string {
	if r.Stuck != "" {
		return "stuck: " + r.Stuck
	}
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	return fmt.Sprintf("%d, %d bytes, sha256 %.12s", r.Status, len(r.Body), sha(r.Body))
}

const (
	stuckQuiet = 40 * time.Second // no upstream activity, nothing owed, still no answer
	hotHits    = 150              // upstream requests for one path during one client request
	hardLimit  = 400 * time.Second
)

// Do performs a request with stuck detection against the given origins.
func (p *CacherProc) Do(method, path string, hdr map[string]string, origins ...*Origin) *Reply {
	return p.DoURL(method, "http://"+p.Addr+escapePath(path), path, hdr, origins...)
}

// Get is Do("GET").
func (p *CacherProc) Get(path string, origins ...*Origin) *Reply {
	return p.Do("GET", path, nil, origins...)
}

func escapePath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	// every byte that could matter is escaped
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		ch := p[i]
		switch {
		case ch >= 'a' && ch <= 'z', ch >= 'A' && ch <= 'Z', ch >= '0' && ch <= '9', strings.IndexByte("/-_.", ch) >= 0:
			b.WriteByte(ch)
		default:
			fmt.Fprintf(&b, "%%%02X", ch)
		}
	}
	return b.String()
}

// DoURL is Do with an explicit URL.
func (p *CacherProc) DoURL(method, rawurl, path string, hdr map[string]string, origins ...*Origin) *Reply {
	r := &Reply{Path: path}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	u, err := url.Parse(rawurl)
	must(err)
	req := (&http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: u.Host}).WithContext(ctx)
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	var stuck atomic.Value
	done := make(chan struct{})
	defer close(done)
	start := time.Now()
	startHits := make([]int, len(origins))
	for i, o := range origins {
		startHits[i] = o.Hits("")
	}
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
			}
			el := time.Since(start)
			quiet := len(origins) > 0
			for i, o := range origins {
				if !o.Quiet(stuckQuiet) {
					quiet = false
				}
				if n := o.Hits("") - startHits[i]; n > hotHits && el > 2*time.Second {
					if pp, m := o.hottestSince(startHits[i]); m > hotHits {
						stuck.Store(fmt.Sprintf("not answered while the upstream path %s was fetched %d times", pp, m))
						cancel()
						return
					}
				}
			}
			if el > stuckQuiet && quiet {
				stuck.Store(fmt.Sprintf("no answer for %v although the upstream owes nothing", el.Round(time.Second)))
				cancel()
				return
			}
			if el > hardLimit {
				stuck.Store("hard limit")
				cancel()
				return
			}
		}
	}()
	r.Call = now()
	resp, err := p.Client.Do(req)
	if err == nil {
		r.Status, r.Header = resp.StatusCode, resp.Header
		r.Body, err = io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	r.Ret = now()
	r.Err = err
	if s, ok := stuck.Load().(string); ok && err != nil {
		r.Stuck = s
		if s == "hard limit" {
			giveUp("request for %s exceeded the hard limit", path)
		}
	}
	return r
}

// hottestSince returns the path requested most often since the n-th request.
func (o *Origin) hottestSince(n int) (string, int) {
	o.mu.Lock()
	defer o.mu.Unlock()
	m := map[string]int{}
	bp, bn := "", 0
	for _, h := range o.log[n:] {
		m[h.Path]++
		if m[h.Path] > bn {
			bp, bn = h.Path, m[h.Path]
		}
	}
	return bp, bn
}

// Raw sends raw bytes and returns what comes back until close or timeout.
func (p *CacherProc) Raw(data string, wait time.Duration) (*http.Response, []byte, error) {
	conn, err := net.DialTimeout("tcp", p.Addr, 10*time.Second)
	if err != nil {
		return nil, nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(wait))
	if _, err := conn.Write([]byte(data)); err != nil {
		return nil, nil, err
	}
	method := strings.SplitN(data, " ", 2)[0]
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
	if err != nil {
		return nil, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp, b, err
}

// waitFor polls cond; giving up is inconclusive unless the caller decides.
func waitFor(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// ---------------------------------------------------------------- mirror

// MirrDef configures one mirror.
type MirrDef struct {
	URL      string
	Suites   []string
	Sections []string
	Archs    []string
	Source   bool
}

// MirrorConf configures a go-apt-mirror run.
type MirrorConf struct {
	Dir      string
	MaxConns int
	Mirrors  map[string]MirrDef
	Raw      string
	LogLevel string
	Plain    bool
	Env      []string
	Umask    int    // umask+1; 0 leaves the default
	Files    int    // limit of open files
	Yield    uint64 // seed of injected delays; 0 for none
}

func tomlList(l []string) string {
	var qs []string
	for _, s := range l {
		qs = append(qs, q(s))
	}
	return "[" + strings.Join(qs, ", ") + "]"
}

func (mc *MirrorConf) toml() string {
	if mc.Raw != "" {
		return mc.Raw
	}
	var b strings.Builder
	lv := mc.LogLevel
	if lv == "" {
		lv = "error"
	}
	fmt.Fprintf(&b, "dir = %s\nmax_conns = %d\n[log]\nlevel = %s\nformat = \"plain\"\n", q(mc.Dir), mc.MaxConns, q(lv))
	var ks []string
	for k := range mc.Mirrors {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := mc.Mirrors[k]
		fmt.Fprintf(&b, "[mirror.%s]\nurl = %s\nsuites = %s\nmirror_source = %v\n", k, q(m.URL), tomlList(m.Suites), m.Source)
		if m.Sections != nil {
			fmt.Fprintf(&b, "sections = %s\n", tomlList(m.Sections))
		}
		if m.Archs != nil {
			fmt.Fprintf(&b, "architectures = %s\n", tomlList(m.Archs))
		}
	}
	return b.String()
}

// RunResult is the outcome of a go-apt-mirror run.
type RunResult struct {
	Code   int // -1 if signaled
	Stderr string
	Stuck  string
	Wall   time.Duration
}

func (r RunResult) String() string {
	return fmt.Sprintf("exit=%d stuck=%q stderr=%s", r.Code, r.Stuck, tail(r.Stderr, 600))
}

// MirrorProc is a running go-apt-mirror.
type MirrorProc struct {
	cmd    *exec.Cmd
	stderr *lockedBuf
	exited chan struct{}
	err    error
	start  time.Time
	Stop   func(elapsed time.Duration) bool // ends the wait for it
}

func (c *Ctx) mirrorCmd(mc MirrorConf, ids ...string) *exec.Cmd {
	conf := filepath.Join(c.Dir("mconf"), "mirror.toml")
	must(os.WriteFile(conf, []byte(mc.toml()), 0644))
	bin := filepath.Join(c.Bin, "race", "go-apt-mirror")
	if mc.Plain {
		bin = filepath.Join(c.Bin, "plain", "go-apt-mirror")
	}
	argv := append([]string{bin, "-f", conf}, ids...)
	if mc.Umask > 0 {
		argv = append([]string{"/bin/sh", "-c", fmt.Sprintf("umask %03o; exec \"$0\" \"$@\"", mc.Umask-1)}, argv...)
	}
	if mc.Files > 0 {
		argv = append([]string{"/bin/sh", "-c", fmt.Sprintf("ulimit -n %d; exec \"$0\" \"$@\"", mc.Files)}, argv...)
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = filepath.Dir(conf)
	cmd.Env = append(cleanEnv(), "TMPDIR="+cmd.Dir, "HOME="+cmd.Dir, "CANCELLATION_DELAY_SECONDS=0")
	cmd.Env = append(cmd.Env, c.raceEnv()...)
	cmd.Env = append(cmd.Env, mc.Env...)
	cmd.Env = append(cmd.Env, c.yieldEnv(mc.Yield)...)
	return cmd
}

// StartMirror launches go-apt-mirror.
func (c *Ctx) StartMirror(mc MirrorConf, ids ...string) *MirrorProc {
	p := &MirrorProc{cmd: c.mirrorCmd(mc, ids...), stderr: &lockedBuf{}, exited: make(chan struct{}), start: time.Now()}
	p.cmd.Stdout, p.cmd.Stderr = p.stderr, p.stderr
	must(startCmd(p.cmd))
	trackProc(p.cmd.Process)
	go func() {
		p.err = p.cmd.Wait()
		untrackProc(p.cmd.Process)
		close(p.exited)
	}()
	return p
}

// Result waits for the end, with stuck detection against origins.
func (p *MirrorProc) Result(origins ...*Origin) RunResult {
	var r RunResult
	t := time.NewTicker(200 * time.Millisecond)
	defer t.Stop()
loop:
	for {
		select {
		case <-p.exited:
			break loop
		case <-t.C:
		}
		quiet := true
		for _, o := range origins {
			if !o.Quiet(stuckQuiet + 20*time.Second) { // longer than the longest retry pause
				quiet = false
			}
		}
		el := time.Since(p.start)
		if p.Stop != nil && p.Stop(el) {
			r.Stuck = fmt.Sprintf("still at it after %v", el.Round(time.Second))
			p.cmd.Process.Kill()
			<-p.exited
			break
		}
		if (quiet && el > stuckQuiet+20*time.Second) || el > hardLimit {
			r.Stuck = fmt.Sprintf("still running after %v although the upstream owes nothing", el.Round(time.Second))
			if !quiet {
				r.Stuck = "hard limit"
			}
			p.cmd.Process.Kill()
			<-p.exited
			break
		}
	}
	r.Code = p.cmd.ProcessState.ExitCode()
	r.Stderr = p.stderr.String()
	r.Wall = time.Since(p.start)
	for _, o := range origins {
		o.Settle()
	}
	return r
}

// RunMirror runs go-apt-mirror to its end.
func (c *Ctx) RunMirror(mc MirrorConf, ids []string, origins ...*Origin) RunResult {
	return c.StartMirror(mc, ids...).Result(origins...)
}

// nextSecond waits until the wall clock shows another second, because
// snapshot directories are named by second.
func nextSecond() {
	n := time.Now()
	time.Sleep(n.Truncate(time.Second).Add(time.Second + 5*time.Millisecond).Sub(n))
}
