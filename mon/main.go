// vmon: runtime monitors for cybozu-go/aptutil.
//
//	vmon run <ID>    supervise a check (build is done by check.sh)
//	vmon child <ID>  run the workload and its oracles (unprivileged)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// childUID is the unprivileged user every workload runs as, so that code
// under test which escapes its directories can reach nothing real.
const childUID = 61734

type checkFn func(c *Ctx)

type checkDef struct {
	fn    checkFn
	level string
	rule  string
	assum []string
	// raceIsViolation: data race reports inside aptutil refute the property.
	raceIsViolation bool
	// minDistinct is the least number of distinct nontrivial cases for a
	// conclusive run.
	minDistinct int
}

var checks = map[string]*checkDef{}

func register(id string, d *checkDef) { checks[id] = d }

// Violation is a refuting observation.
type Violation struct {
	What    string      `json:"what"`
	Witness interface{} `json:"witness,omitempty"`
}

// Result is what the child hands to the parent.
type Result struct {
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Evaluations  int              `json:"evaluations"`
	Distinct     int              `json:"distinct"`
	Samples      []interface{}    `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Keyed        []KeyedViolation `json:"keyed"`
	Done         bool             `json:"done"`
}

// KeyedViolation is a violation of a class that known_findings.txt may list.
type KeyedViolation struct {
	Key string
	V   Violation
}

// Ctx is the context of one check run.
type Ctx struct {
	ID   string
	Tier string
	Seed int64
	Work string // scratch directory, owned by childUID
	Bin  string // directory of built binaries

	mu       sync.Mutex
	res      Result
	distinct map[string]struct{}
	dirSeq   int64
	launches int64
	failed   int32
}

// Thorough tells the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	if s := quickScale[c.ID]; s > 1 && quick >= 8 && quick < thorough {
		// case counts, not loop lengths
		if quick *= s; quick > thorough {
			quick = thorough
		}
	}
	return quick
}

// quickScale multiplies the numbers of cases of the cheap checks.
var quickScale = map[string]int{
	"A01": 10, "A02": 6, "A03": 10, "A04": 10, "A05": 10,
	"C01": 2, "C05": 3, "C06": 8, "C07": 4, "C08": 8, "C09": 4, "C11": 4, "C12": 5,
	"M01": 3, "M02": 5, "M04": 2, "M05": 3, "M06": 3, "M07": 2, "M08": 4, "M11": 3, "M14": 4, "M15": 4, "M16": 6,
}

// Rng returns a PRNG determined by seed, check and name.
func (c *Ctx) Rng(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", c.Seed, c.ID, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Violate records a violation.
func (c *Ctx) Violate(witness interface{}, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	atomic.StoreInt32(&c.failed, 1)
	if len(c.res.Violations) < 20 {
		c.res.Violations = append(c.res.Violations, Violation{fmt.Sprintf(format, args...), witness})
	}
}

// ViolateKeyed records a violation that is reported as a known finding if
// known_findings.txt lists its key for this property.
func (c *Ctx) ViolateKeyed(key string, witness interface{}, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.res.Keyed {
		if k.Key == key {
			return
		}
	}
	c.res.Keyed = append(c.res.Keyed, KeyedViolation{key, Violation{fmt.Sprintf(format, args...), witness}})
}

// Failed tells if a violation has been found (workloads may stop early).
func (c *Ctx) Failed() bool { return atomic.LoadInt32(&c.failed) != 0 }

// Inconclusive records that something could not be decided.
func (c *Ctx) Inconclusive(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Inconclusive) < 20 {
		c.res.Inconclusive = append(c.res.Inconclusive, fmt.Sprintf(format, args...))
	}
}

// Eval counts one evaluated case; key identifies it among distinct ones
// ("" means trivial).
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations++
	if key != "" {
		c.distinct[key] = struct{}{}
	}
}

// Count adds to a named counter in the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Counters[name] += int64(n)
}

// Max keeps the maximum for a named counter.
func (c *Ctx) Max(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.res.Counters[name] < int64(n) {
		c.res.Counters[name] = int64(n)
	}
}

// Sample stores an example case (first few are kept).
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 6 {
		c.res.Samples = append(c.res.Samples, v)
	}
}

// Dir makes a fresh scratch directory.
func (c *Ctx) Dir(name string) string {
	n := atomic.AddInt64(&c.dirSeq, 1)
	d := filepath.Join(c.Work, fmt.Sprintf("%s-%d", name, n))
	must(os.MkdirAll(d, 0755))
	return d
}

// Parallel runs f(0..n-1) on w workers. A panic whose innermost
// non-runtime frames lie in aptutil is a violation, others are harness errors.
func (c *Ctx) Parallel(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || (c.Failed() && !c.Thorough()) {
					return
				}
				c.Guard(fmt.Sprintf("case %d", i), func() { f(i) })
			}
		}()
	}
	wg.Wait()
}

// Guard runs f and turns panics into verdicts.
func (c *Ctx) Guard(what string, f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			st := string(debug.Stack())
			if ie, ok := r.(inconclusivePanic); ok {
				c.Inconclusive("%s: %s", what, string(ie))
				return
			}
			if panicInAptutil(st) {
				c.Violate(map[string]interface{}{"case": what, "stack": st}, "aptutil panicked: %v", r)
			} else {
				c.Inconclusive("%s: harness panic: %v\n%s", what, r, st)
			}
		}
	}()
	f()
	return
}

type inconclusivePanic string

func giveUp(format string, args ...interface{}) {
	panic(inconclusivePanic(fmt.Sprintf(format, args...)))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

const aptPkg = "github.com/cybozu-go/aptutil/"

// panicInAptutil decides whether the panicking frames (after the last
// runtime panic line) belong to aptutil.
func panicInAptutil(stack string) bool {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, aptPkg) {
			return true
		}
	}
	return false
}

func main() {
	if len(os.Args) < 3 {
		if len(os.Args) == 2 && os.Args[1] == "list" {
			var ids []string
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				fmt.Println(id)
			}
			return
		}
		fmt.Fprintln(os.Stderr, "usage: vmon run|child ID")
		os.Exit(3)
	}
	id := os.Args[2]
	def, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(id, def))
	case "child":
		child(id, def)
	default:
		os.Exit(3)
	}
}

func envSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func child(id string, def *checkDef) {
	if os.Geteuid() == 0 {
		fmt.Fprintln(os.Stderr, "refusing to run a workload as root")
		os.Exit(3)
	}
	c := &Ctx{
		ID: id, Tier: envTier(), Seed: envSeed(),
		Work: os.Getenv("VMON_WORK"), Bin: os.Getenv("VMON_BIN"),
		distinct: map[string]struct{}{},
	}
	c.res.Counters = map[string]int64{}
	quietLogs()
	c.Guard("check", func() { def.fn(c) })
	killAllProcs()
	c.mu.Lock()
	c.res.Distinct = len(c.distinct)
	c.res.Done = true
	data, err := json.Marshal(&c.res)
	c.mu.Unlock()
	must(err)
	must(os.WriteFile(filepath.Join(c.Work, "result.json"), data, 0644))
}

var raceSplit = regexp.MustCompile(`(?m)^==================\n`)

// raceReports returns the race report blocks in the logs below dir that
// have a frame in aptutil.
func raceReports(dir string) (apt []string, other int) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || !info.Mode().IsRegular() || !strings.HasPrefix(filepath.Base(p), "race.") {
			return nil
		}
		data, _ := os.ReadFile(p)
		for _, b := range raceSplit.Split(string(data), -1) {
			if !strings.Contains(b, "WARNING: DATA RACE") {
				continue
			}
			if strings.Contains(b, aptPkg) {
				apt = append(apt, b)
			} else {
				other++
			}
		}
		return nil
	})
	return
}

func parent(id string, def *checkDef) int {
	start := time.Now()
	verif := os.Getenv("VMON_VERIF")
	work := os.Getenv("VMON_WORK")
	tier, seed := envTier(), envSeed()
	must(os.MkdirAll(filepath.Join(work, "race"), 0755))
	must(os.Chown(work, childUID, childUID))
	must(os.Chown(filepath.Join(work, "race"), childUID, childUID))

	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "child", id)
	var stderr bytes.Buffer
	cmd.Stdout = os.Stderr
	cmd.Stderr = io.MultiWriter(&limitedWriter{w: os.Stderr, n: 20000}, &limitedWriter{w: &stderr, n: 4 << 20})
	cmd.Env = append(cleanEnv(),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(work, "race", "race.child"),
		"TMPDIR="+work, "HOME="+work)
	cmd.Dir = work
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Credential: &syscall.Credential{Uid: childUID, Gid: childUID},
		Setpgid:    true,
		Pdeathsig:  syscall.SIGKILL,
	}
	// Pdeathsig is tied to the creating thread.
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start the unprivileged child:", err)
		return 3
	}
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	timedOut := int32(0)
	timer := time.AfterFunc(limit, func() {
		atomic.StoreInt32(&timedOut, 1)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	werr := cmd.Wait()
	timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)

	var res Result
	data, rerr := os.ReadFile(filepath.Join(work, "result.json"))
	if rerr == nil {
		rerr = json.Unmarshal(data, &res)
	}
	if res.Counters == nil {
		res.Counters = map[string]int64{}
	}
	if rerr != nil || werr != nil {
		s := stderr.String()
		switch {
		case atomic.LoadInt32(&timedOut) != 0:
			res.Inconclusive = append(res.Inconclusive, "watchdog: check did not finish in time")
		case crashInAptutil(s):
			res.Violations = append(res.Violations, Violation{"aptutil code crashed the process that used it", tail(s, 6000)})
		default:
			res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("child failed: %v %v", werr, rerr))
		}
	}
	apt, other := raceReports(work)
	res.Counters["race_reports_aptutil"] = int64(len(apt))
	res.Counters["race_reports_elsewhere"] = int64(other)
	if len(apt) > 0 && def.raceIsViolation {
		res.Violations = append(res.Violations, Violation{
			fmt.Sprintf("%d data race reports in aptutil", len(apt)), head(strings.Join(apt, "\n"), 12000)})
	} else if len(apt) > 0 {
		fmt.Fprintf(os.Stderr, "note: %d data race reports in aptutil (decided by C15/M13)\n%s\n", len(apt), head(apt[0], 3000))
	}
	known := knownFindings(filepath.Join(verif, "known_findings.txt"), id)
	for _, k := range res.Keyed {
		if known[k.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.Key, head(k.V.What, 500))
			res.Counters["known_findings_observed"]++
		} else {
			res.Violations = append(res.Violations, k.V)
		}
	}
	if len(res.Violations) == 0 && len(res.Inconclusive) == 0 && res.Distinct < def.minDistinct {
		res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("observed too little: %d distinct nontrivial cases, need %d", res.Distinct, def.minDistinct))
	}

	cov := map[string]interface{}{
		"evaluations": res.Evaluations, "distinct_nontrivial": res.Distinct,
		"rule": def.rule, "samples": res.Samples,
	}
	if res.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	for k, v := range res.Counters {
		cov[k] = v
	}
	if len(res.Inconclusive) > 0 {
		cov["inconclusive"] = res.Inconclusive
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": def.level,
		"coverage": cov, "assumptions": def.assum,
		"wall_s": time.Since(start).Seconds(), "violations": len(res.Violations),
	}
	if def.assum == nil {
		ev["assumptions"] = []string{}
	}
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0755))
	ej, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(ej, '\n'), 0644))

	if len(res.Violations) > 0 {
		rd := filepath.Join(verif, "replay")
		must(os.MkdirAll(rd, 0755))
		rp := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
		rj, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "tier": tier, "seed": seed,
			"replay":     fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", seed, tier, id),
			"violations": res.Violations,
		}, "", " ")
		must(os.WriteFile(rp, rj, 0644))
		for i, v := range res.Violations {
			if i < 8 {
				fmt.Printf("# %s: %s\n", id, head(v.What, 600))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if len(res.Inconclusive) > 0 {
		for _, s := range res.Inconclusive {
			fmt.Printf("INCONCLUSIVE %s: %s\n", id, head(s, 3000))
		}
		return 3
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n",
		id, tier, seed, res.Evaluations, res.Distinct, time.Since(start).Seconds())
	return 0
}

// knownFindings reads the keys listed as "finding: property=ID key=KEY ...".
func knownFindings(file, id string) map[string]bool {
	m := map[string]bool{}
	data, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[f[2][4:]] = true
		}
	}
	return m
}

var crashRE = regexp.MustCompile(`(?m)^(panic: |fatal error: |SIGSEGV|unexpected fault)`)

// crashInAptutil tells if a Go crash dump starts in aptutil code.
func crashInAptutil(s string) bool {
	loc := crashRE.FindStringIndex(s)
	if loc == nil {
		return false
	}
	s = s[loc[0]:]
	// first goroutine with frames
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return false
	}
	s = s[i+1:]
	if j := strings.Index(s, "\n\n"); j >= 0 {
		s = s[:j]
	}
	return panicInAptutil(s)
}

type limitedWriter struct {
	w io.Writer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func cleanEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.ToUpper(strings.SplitN(e, "=", 2)[0])
		switch k {
		case "HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "ALL_PROXY", "GORACE", "TMPDIR", "HOME", "GODEBUG", "GOMAXPROCS", "REQUEST_ID_HEADER", "CANCELLATION_DELAY_SECONDS", "CYBOZU_LISTEN_FDS":
			continue
		}
		env = append(env, e)
	}
	return env
}
