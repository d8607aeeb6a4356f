package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C15", &checkDef{fn: checkC15, level: "exploration", minDistinct: 8, raceIsViolation: true,
		rule:  "go-apt-cacher built with the race detector under concurrent clients (GET, HEAD, ranges, aborted requests) of shared and private paths, refreshes every second, new releases, upstream faults and held transfers, eviction under a full cache, start-up over an existing cache and SIGTERM in the middle; race reports with a frame in aptutil, and requests without an answer although the upstream owes nothing, are violations. Non-trivial: distinct (configuration, fault mix, outcome classes) combinations; the evidence counts requests, upstream transfers and evicted files",
		assum: []string{"the race detector sees only interleavings that occur"}})
	register("C16", &checkDef{fn: checkC16, level: "exploration", minDistinct: 20,
		rule:  "SIGTERM to a real go-apt-cacher: idle, during a transfer to a slow client, with requests waiting for an upstream that never answers or for a free connection, during refreshes, with cached metadata of a prefix that is no longer mapped, and under load, with requests still arriving; observed are the end of the process, what every client got (complete, visibly aborted, or an error), and what a restarted process serves from the same directories. Non-trivial: distinct (situation, client outcome)",
		assum: []string{"clients keep reading", "a process still running 100 s after SIGTERM does not terminate"}})
}

// ------------------------------------------------------------------ C15

func checkC15(c *Ctx) {
	n := c.N(6, 30)
	c.Parallel(n, 6, func(i int) { c15Run(c, c.Rng(fmt.Sprint("run", i)), i) })
}

func c15Run(c *Ctx, rng *rand.Rand, i int) {
	o, o2 := NewOrigin(), NewOrigin()
	defer o.Close()
	defer o2.Close()
	fam := randSums(rng)
	g := GenOpts{Suites: []string{"t", "u"}, Sections: []string{"main"}, Archs: []string{"amd64"}, Source: true, PkgsPer: 4, MaxSize: 20000,
		Exts: []string{"", ".gz", ".xz"}, Sums: &fam}
	repo := GenRepo(rng, g)
	b := repo.Build()
	o.SetTree(b.Tree)
	o2.SetTree(b.Tree)
	mapping := map[string]string{"u": o.URL, "v": o.URL, "w": o2.URL}
	cc := c.DefaultConf(mapping)
	cc.CheckInterval = 1
	cc.CachePeriod = i % 2
	cc.MaxConns = []int{0, 1, 2, 5}[rng.Intn(4)]
	cc.LogLevel = []string{"error", "debug", "info"}[rng.Intn(3)]
	full := i%3 == 0
	if full {
		// a full cache of sparse files: every insert evicts
		for j := 0; j < 64; j++ {
			fp := filepath.Join(cc.Dir, "cache/u/old", fmt.Sprintf("f%02d.deb.cache", j))
			must(os.MkdirAll(filepath.Dir(fp), 0755))
			must(os.WriteFile(fp, nil, 0644))
			must(os.Truncate(fp, 1<<24))
		}
	}
	var mode int32
	seed := rng.Int63()
	gate := make(chan struct{})
	var gmu sync.Mutex
	faults := func(pp string, n int, r *http.Request) *Resp {
		h := rand.New(rand.NewSource(seed ^ int64(n)*7919 ^ int64(len(pp))*31 ^ int64(pp[len(pp)-1])))
		gmu.Lock()
		gt := gate
		gmu.Unlock()
		d, ok := o.Tree()[strings.TrimPrefix(pp, "/")]
		if !ok {
			d = []byte("any " + pp)
		}
		if atomic.LoadInt32(&mode) == 0 {
			return nil
		}
		switch h.Intn(14) {
		case 0:
			return &Resp{Status: 500}
		case 1:
			return &Resp{Reset: true}
		case 2:
			return &Resp{Body: d, Trunc: true}
		case 3:
			return &Resp{Status: 404}
		case 4, 5:
			return &Resp{Body: d, Gate: gt}
		case 6, 7:
			return &Resp{Body: d, MidGate: gt}
		case 8:
			return &Resp{Body: append([]byte("bad"), d...)}
		case 9:
			return &Resp{Body: d, Slow: 4, Chunked: true}
		}
		return &Resp{Body: d}
	}
	o.Handle(faults)
	o2.Handle(faults)
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	keys := sortedKeys(b.Tree)
	var stop int32
	var wg sync.WaitGroup
	counts := map[string]int{}
	var cmu sync.Mutex
	// gates open again and again
	wg.Add(1)
	go func() {
		defer wg.Done()
		for atomic.LoadInt32(&stop) == 0 {
			time.Sleep(60 * time.Millisecond)
			gmu.Lock()
			close(gate)
			gate = make(chan struct{})
			gmu.Unlock()
		}
		// from now on nothing is held
		atomic.StoreInt32(&mode, 0)
		gmu.Lock()
		close(gate)
		gate = make(chan struct{})
		close(gate)
		gmu.Unlock()
	}()
	atomic.StoreInt32(&mode, 1)
	client := func(r *rand.Rand) {
		defer wg.Done()
		for atomic.LoadInt32(&stop) == 0 && !c.Failed() {
			k := keys[r.Intn(len(keys))]
			if r.Intn(3) == 0 {
				k = keys[r.Intn(4)] // contention
			}
			path := []string{"u/", "v/", "w/"}[r.Intn(3)] + k
			switch r.Intn(12) {
			case 0:
				path = "u/extra/" + fmt.Sprint(r.Intn(20))
			case 1:
				path = "nosuch/" + k
			case 2:
				if full {
					path = fmt.Sprintf("u/old/f%02d.deb", r.Intn(64))
				}
			}
			var rep *Reply
			switch r.Intn(8) {
			case 0:
				p.abortingGet(path, r.Intn(2000))
				continue
			case 1:
				rep = p.Do("HEAD", path, nil, o, o2)
			case 2:
				rep = p.Do("GET", path, map[string]string{"Range": "bytes=1-10"}, o, o2)
			default:
				rep = p.Get(path, o, o2)
			}
			if rep.Stuck != "" {
				c.Violate(map[string]interface{}{"max_conns": cc.MaxConns, "cache_period": cc.CachePeriod}, "%s was never answered: %s", path, rep.Stuck)
				return
			}
			cmu.Lock()
			if rep.Err != nil {
				counts["error"]++
			} else {
				counts[fmt.Sprint(rep.Status)]++
			}
			cmu.Unlock()
		}
	}
	for w := 0; w < 12; w++ {
		wg.Add(1)
		go client(rand.New(rand.NewSource(rng.Int63())))
	}
	end := time.Now().Add(time.Duration(c.N(7, 60)) * time.Second)
	for time.Now().Before(end) && !c.Failed() {
		time.Sleep(900 * time.Millisecond)
		repo = repo.Mutate(rng, g)
		nb := repo.Build()
		o.SetTree(nb.Tree)
		o2.SetTree(nb.Tree)
		if !p.Alive() {
			c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher died")
			break
		}
	}
	atomic.StoreInt32(&stop, 1)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Minute):
		giveUp("clients did not end")
	}
	if c.Failed() {
		return
	}
	// everything is answered once the upstream is well again
	for _, pre := range []string{"u/", "v/", "w/"} {
		for _, k := range keys {
			rep := p.Get(pre+k, o, o2)
			if rep.Stuck != "" {
				c.Violate(map[string]interface{}{"max_conns": cc.MaxConns}, "after the stress %s was never answered: %s", pre+k, rep.Stuck)
				return
			}
		}
	}
	if i%2 == 0 {
		// start-up over what is there, with clients at once, then SIGTERM under load
		p.Kill()
		p2, err := c.TryStartCacher(cc)
		if err != nil {
			c.Violate(nil, "go-apt-cacher does not start on its own cache: %v", err)
			return
		}
		p = p2
		atomic.StoreInt32(&stop, 0)
		for w := 0; w < 6; w++ {
			wg.Add(1)
			go client(rand.New(rand.NewSource(rng.Int63())))
		}
		time.Sleep(1500 * time.Millisecond)
		p.cmd.Process.Signal(syscall.SIGTERM)
		time.Sleep(200 * time.Millisecond)
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
	}
	for k, n := range counts {
		c.Count("answers_"+k, n)
		c.Eval(fmt.Sprintf("conns=%d period=%d full=%v %s", cc.MaxConns, cc.CachePeriod, full, k))
	}
	c.Count("upstream_transfers", o.Hits("")+o2.Hits(""))
	if full {
		left := 0
		m, _ := filepath.Glob(filepath.Join(cc.Dir, "cache/u/old/*.cache"))
		for _, f := range m {
			// fetched again, an evicted one is small
			if st, err := os.Stat(f); err == nil && st.Size() == 1<<24 {
				left++
			}
		}
		c.Count("large_files_evicted", 64-left)
	}
	c.Sample(map[string]interface{}{"max_conns": cc.MaxConns, "full_cache": full, "answers": counts})
}

// ------------------------------------------------------------------ C16

func checkC16(c *Ctx) {
	kinds := []string{"idle", "slowclient", "gated", "midgated", "semaphore", "refresh", "unmapped", "load", "refresh-period", "slowmany"}
	n := c.N(len(kinds)*2, len(kinds)*12)
	c.Parallel(n, 8, func(i int) { c16Run(c, c.Rng(fmt.Sprint("run", i)), i, kinds[i%len(kinds)]) })
}

func c16Run(c *Ctx, rng *rand.Rand, i int, kind string) {
	r := c09Gen(rng, i)
	o := NewOrigin()
	defer o.Close()
	big := map[string][]byte{}
	for j := 0; j < 4; j++ {
		big[fmt.Sprintf("big/%d.bin", j)] = blob(rng, fmt.Sprint("big", j), 6<<20)
	}
	tree := map[string][]byte{}
	for k, d := range r.b.Tree {
		tree[k] = d
	}
	for k, d := range big {
		tree[k] = d
	}
	o.SetTree(tree)
	never := make(chan struct{})
	defer close(never)
	var gated int32
	var gateRel int32
	o.Handle(func(pp string, n int, rq *http.Request) *Resp {
		if strings.HasPrefix(pp, "/held/") || atomic.LoadInt32(&gateRel) != 0 && rankPath(pp) == 0 {
			atomic.AddInt32(&gated, 1)
			if kind == "midgated" {
				return &Resp{Body: blob(rand.New(rand.NewSource(1)), pp, 100000), MidGate: never}
			}
			return &Resp{Body: []byte("late"), Gate: never}
		}
		return nil
	})
	cc := c.DefaultConf(map[string]string{"u": o.URL})
	cc.MaxConns = 10
	cc.CachePeriod = 3600
	switch kind {
	case "semaphore":
		cc.MaxConns = 1
	case "refresh", "unmapped", "refresh-period":
		cc.CheckInterval = 1
	}
	p := c.StartCacher(cc)
	defer func() { p.Kill() }()
	got := map[string]string{}
	var gmu sync.Mutex
	for _, k := range r.order {
		if rep := p.Get("u/"+k, o); rep.Status == 200 && rep.Err == nil {
			got[k] = sha(rep.Body)
		}
	}
	for k := range big {
		p.Get("u/"+k, o)
	}
	if kind == "unmapped" {
		p.Kill()
		cc.Mapping = map[string]string{"other": o.URL}
		p2, err := c.TryStartCacher(cc)
		if err != nil {
			c.Violate(nil, "go-apt-cacher does not start when a cached prefix is no longer mapped: %v", err)
			return
		}
		p = p2
		time.Sleep(1500 * time.Millisecond)
	}
	var wg sync.WaitGroup
	outcome := func(path string, rep *Reply, want []byte) {
		var cls string
		switch {
		case rep.Err != nil && rep.Status != 0:
			cls = "visibly aborted"
		case rep.Err != nil:
			cls = "connection error"
		case rep.Status == 200:
			cls = "complete"
			if want == nil || !bytes.Equal(rep.Body, want) {
				c.Violate(map[string]interface{}{"situation": kind, "got": len(rep.Body), "want": len(want), "path": path},
					"SIGTERM (%s): %s got a body of %d bytes that looks complete but is not the file of %d bytes", kind, path, len(rep.Body), len(want))
			}
		default:
			cls = fmt.Sprint("status ", rep.Status)
			if rep.Status < 400 {
				c.Violate(rep.String(), "SIGTERM (%s): %s answered %d", kind, path, rep.Status)
			}
		}
		c.Eval(kind + " " + cls)
		c.Count(strings.ReplaceAll(cls, " ", "_"), 1)
	}
	slow := func(path string, want []byte, started *sync.WaitGroup) {
		defer wg.Done()
		once := sync.Once{}
		defer once.Do(started.Done)
		conn, err := net.DialTimeout("tcp", p.Addr, 10*time.Second)
		if err != nil {
			return
		}
		defer conn.Close()
		if tc, ok := conn.(*net.TCPConn); ok {
			tc.SetReadBuffer(16384)
		}
		fmt.Fprintf(conn, "GET /u/%s HTTP/1.1\r\nHost: x\r\n\r\n", path)
		conn.SetReadDeadline(time.Now().Add(3 * time.Minute))
		resp, err := http.ReadResponse(bufio.NewReaderSize(conn, 4096), &http.Request{Method: "GET"})
		rep := &Reply{Path: path, Err: err}
		if err == nil {
			rep.Status = resp.StatusCode
			var body bytes.Buffer
			buf := make([]byte, 64<<10)
			for {
				n, err := resp.Body.Read(buf)
				body.Write(buf[:n])
				once.Do(started.Done)
				if err == io.EOF {
					break
				}
				if err != nil {
					rep.Err = err
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			rep.Body = body.Bytes()
		}
		outcome(path, rep, want)
	}
	var started sync.WaitGroup
	req := func(path string, want []byte) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outcome(path, p.Get("u/"+path), want)
		}()
	}
	switch kind {
	case "slowclient", "slowmany":
		n := 1
		if kind == "slowmany" {
			n = 6
		}
		for j := 0; j < n; j++ {
			k := fmt.Sprintf("big/%d.bin", j%4)
			wg.Add(1)
			started.Add(1)
			go slow(k, big[k], &started)
		}
		started.Wait()
	case "gated", "midgated", "semaphore":
		for j := 0; j < 5; j++ {
			req(fmt.Sprintf("held/%d", j%4), nil)
		}
		want := int32(4)
		if kind == "semaphore" {
			want = 1
			req("dists/none/Release", nil)
		}
		if !waitFor(30*time.Second, func() bool { return atomic.LoadInt32(&gated) >= want }) {
			giveUp("requests did not reach the upstream")
		}
		time.Sleep(50 * time.Millisecond)
	case "refresh":
		atomic.StoreInt32(&gateRel, 1)
		if !waitFor(30*time.Second, func() bool { return atomic.LoadInt32(&gated) >= 1 }) {
			c.Count("no_refresh_seen", 1)
		}
	case "refresh-period":
		time.Sleep(time.Duration(900+rng.Intn(300)) * time.Millisecond)
	}
	// clients that keep arriving
	var stop int32
	late := kind != "idle" && kind != "unmapped"
	if late {
		for w := 0; w < 3; w++ {
			lr := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&stop) == 0 {
					k := r.order[lr.Intn(len(r.order))]
					switch {
					case lr.Intn(4) == 0 && kind == "load":
						k = fmt.Sprintf("big/%d.bin", lr.Intn(4))
					case lr.Intn(6) == 0:
						k = fmt.Sprintf("held/late%d", lr.Intn(3))
						if kind != "gated" && kind != "midgated" && kind != "semaphore" {
							k = fmt.Sprintf("missing/%d", lr.Intn(1000))
						}
					}
					rep := p.Get("u/" + k)
					outcome("u/"+k, rep, tree[k])
					if rep.Err == nil && rep.Status == 200 {
						gmu.Lock()
						if _, listed := r.b.Tree[k]; listed {
							got[k] = sha(rep.Body)
						}
						gmu.Unlock()
					}
					time.Sleep(time.Duration(lr.Intn(5)) * time.Millisecond)
				}
			}()
		}
		time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
	}
	t0 := time.Now()
	ended := make(chan struct{})
	p.cmd.Process.Signal(syscall.SIGTERM)
	go func() { <-p.exited; close(ended) }()
	select {
	case <-ended:
	case <-time.After(100 * time.Second):
		c.Violate(map[string]interface{}{"situation": kind, "stderr": tail(p.stderr.String(), 2000)}, "go-apt-cacher still runs 100 s after SIGTERM (%s)", kind)
		p.Kill()
	}
	c.Max("slowest_stop_ms", int(time.Since(t0)/time.Millisecond))
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && !c.Failed() {
		if ws.Signaled() || strings.Contains(p.stderr.String(), "\npanic: ") || strings.Contains(p.stderr.String(), "goroutine 1 [") {
			c.Violate(tail(p.stderr.String(), 3000), "go-apt-cacher did not stop cleanly on SIGTERM (%s)", kind)
		}
	}
	c.Eval(kind + " terminated")
	time.Sleep(20 * time.Millisecond)
	atomic.StoreInt32(&stop, 1)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(4 * time.Minute):
		giveUp("clients did not end")
	}
	if c.Failed() {
		return
	}
	cc.Mapping = map[string]string{"u": o.URL}
	cc.CheckInterval = 3600
	gmu.Lock()
	defer gmu.Unlock()
	atomic.StoreInt32(&gateRel, 0)
	c09After(c, cc, o, r, got, "SIGTERM ("+kind+")")
	if i < 3 {
		c.Sample(map[string]interface{}{"situation": kind, "ended_after": time.Since(t0).String()})
	}
}
