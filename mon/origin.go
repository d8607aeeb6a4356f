package main

import (
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var t0 = time.Now()

func now() int64 { return int64(time.Since(t0)) }

func sha(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}

func hexMD5(b []byte) string    { s := md5.Sum(b); return hex.EncodeToString(s[:]) }
func hexSHA1(b []byte) string   { s := sha1.Sum(b); return hex.EncodeToString(s[:]) }
func hexSHA256(b []byte) string { return sha(b) }

// Resp tells the origin how to answer one request.
type Resp struct {
	Status  int
	Body    []byte
	Header  map[string]string
	Gate    <-chan struct{} // wait before answering
	MidGate <-chan struct{} // wait in the middle of the body
	Trunc   bool            // announce more than is sent, then cut the connection
	TruncAt int             // bytes to send when Trunc (default half)
	Chunked bool            // no Content-Length
	Reset   bool            // cut the connection without an answer
	Slow    int             // send in that many pieces, yielding in between
	Hint    bool            // send an informational answer first
	Raw     []byte          // raw bytes written on the hijacked connection
	Gzip    bool            // send with Content-Encoding: gzip
}

// Hit is one request seen by the origin.
type Hit struct {
	Seq      int64
	Path     string // decoded
	RawURI   string
	Host     string
	Method   string
	N        int // how many times this path was requested before
	Start    int64
	End      int64
	Status   int
	Body     string // sha256 of a completely sent body
	Complete bool
	UA       string
	Auth     string
}

// Origin simulates an upstream server.
type Origin struct {
	Addr string
	URL  string
	srv  *http.Server
	ln   net.Listener

	mu       sync.Mutex
	handler  func(path string, n int, r *http.Request) *Resp
	tree     map[string][]byte
	log      []*Hit
	hits     map[string]int
	inflight map[string]int
	maxPath  map[string]int
	cur      int
	max      int
	bodies   map[string]map[string]bool // path -> sha256 of every complete 200 body
	conns    map[net.Conn]struct{}
	maxConn  int
	total    int64
	activity int64 // time of the last start or end of a request
	closed   chan struct{}
	modified map[string]version // by path
}

// version is what the headers Last-Modified and ETag tell.
type version struct {
	sum string
	n   int
}

// conditional answers requests like the usual web servers do: 304 if the
// client has the current version, 206 if it wants the rest of a file.
func (o *Origin) conditional(r *http.Request, p string, resp *Resp) *Resp {
	sum := sha(resp.Body)
	o.mu.Lock()
	v := o.modified[p]
	if v.sum != sum {
		v = version{sum, v.n + 1}
		o.modified[p] = v
	}
	o.mu.Unlock()
	// files were made well before they are published here
	lm := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(v.n) * time.Hour)
	etag := `"` + sum[:16] + `"`
	h := map[string]string{"Last-Modified": lm.Format(http.TimeFormat), "ETag": etag}
	for k, x := range resp.Header {
		h[k] = x
	}
	resp.Header = h
	if inm := r.Header.Get("If-None-Match"); inm != "" {
		if strings.Contains(inm, etag) {
			return &Resp{Status: 304, Header: h, Gate: resp.Gate}
		}
	} else if t, err := http.ParseTime(r.Header.Get("If-Modified-Since")); err == nil && !lm.After(t) {
		return &Resp{Status: 304, Header: h, Gate: resp.Gate}
	}
	if rg := r.Header.Get("Range"); strings.HasPrefix(rg, "bytes=") && strings.HasSuffix(rg, "-") {
		n, err := strconv.Atoi(rg[len("bytes=") : len(rg)-1])
		ir := r.Header.Get("If-Range")
		if err == nil && 0 <= n && n < len(resp.Body) && (ir == "" || ir == etag || ir == h["Last-Modified"]) {
			c := *resp
			h["Content-Range"] = fmt.Sprintf("bytes %d-%d/%d", n, len(resp.Body)-1, len(resp.Body))
			c.Status, c.Body, c.Gzip = 206, resp.Body[n:], false
			return &c
		}
	}
	return resp
}

// NewOrigin starts an origin on a loopback port.
func NewOrigin() *Origin {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	o := &Origin{
		ln: ln, Addr: ln.Addr().String(), URL: "http://" + ln.Addr().String(),
		hits: map[string]int{}, inflight: map[string]int{}, maxPath: map[string]int{},
		bodies: map[string]map[string]bool{}, conns: map[net.Conn]struct{}{},
		closed: make(chan struct{}), modified: map[string]version{},
	}
	o.srv = &http.Server{
		Handler:  o,
		ErrorLog: log.New(io.Discard, "", 0),
		ConnState: func(c net.Conn, s http.ConnState) {
			o.mu.Lock()
			defer o.mu.Unlock()
			switch s {
			case http.StateNew:
				o.conns[c] = struct{}{}
				if len(o.conns) > o.maxConn {
					o.maxConn = len(o.conns)
				}
			case http.StateClosed, http.StateHijacked:
				delete(o.conns, c)
			}
		},
	}
	go o.srv.Serve(ln)
	return o
}

// Close stops the origin.
func (o *Origin) Close() {
	select {
	case <-o.closed:
	default:
		close(o.closed)
	}
	o.srv.Close()
}

// SetTree publishes a new set of files.
func (o *Origin) SetTree(t map[string][]byte) {
	o.mu.Lock()
	o.tree = t
	o.mu.Unlock()
}

// Tree returns the current set of files.
func (o *Origin) Tree() map[string][]byte {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.tree
}

// Handle installs a fault script; returning nil falls back to the tree.
func (o *Origin) Handle(h func(path string, n int, r *http.Request) *Resp) {
	o.mu.Lock()
	o.handler = h
	o.mu.Unlock()
}

// Log returns a copy of the request log.
func (o *Origin) Log() []Hit {
	o.mu.Lock()
	defer o.mu.Unlock()
	l := make([]Hit, len(o.log))
	for i, h := range o.log {
		l[i] = *h
	}
	return l
}

// Hits returns the number of requests for path ("" = all).
func (o *Origin) Hits(path string) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	if path == "" {
		return int(o.total)
	}
	return o.hits[path]
}

// Inflight returns the number of requests being served.
func (o *Origin) Inflight() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.cur
}

// Settle waits until the requests that processes which are gone left
// in the socket buffers have arrived and ended, so that they do not
// count as requests of the next run.
func (o *Origin) Settle() {
	// connections are accepted in order: when this one was answered,
	// those that were waiting are known
	if pc, err := net.DialTimeout("tcp", o.Addr, 5*time.Second); err == nil {
		pc.SetDeadline(now5())
		io.WriteString(pc, "settle\r\n\r\n")
		io.Copy(io.Discard, pc)
		pc.Close()
	}
	for end := now5(); time.Now().Before(end); time.Sleep(time.Millisecond) {
		o.mu.Lock()
		n := len(o.conns)
		o.mu.Unlock()
		if n == 0 {
			return
		}
	}
}

func now5() time.Time { return time.Now().Add(5 * time.Second) }

// ResetMax restarts the gauges.
func (o *Origin) ResetMax() {
	o.mu.Lock()
	o.max, o.maxPath, o.maxConn = o.cur, map[string]int{}, len(o.conns)
	o.mu.Unlock()
}

// Max returns the largest number of concurrent requests seen.
func (o *Origin) Max() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.max
}

// MaxPath returns the path with the most concurrent transfers.
func (o *Origin) MaxPath() (string, int) {
	o.mu.Lock()
	defer o.mu.Unlock()
	bp, bn := "", 0
	for p, n := range o.maxPath {
		if n > bn {
			bp, bn = p, n
		}
	}
	return bp, bn
}

// Served tells if body was completely delivered for path some time.
func (o *Origin) Served(path, sum string) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.bodies[path][sum]
}

// Quiet tells if nothing is in flight and nothing happened for d.
func (o *Origin) Quiet(d time.Duration) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.cur == 0 && now()-o.activity > int64(d)
}

func (o *Origin) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := r.URL.Path
	o.mu.Lock()
	h := &Hit{Seq: o.total, Path: p, RawURI: r.RequestURI, Host: r.Host, Method: r.Method, N: o.hits[p], Start: now(), UA: r.UserAgent(), Auth: r.Header.Get("Authorization")}
	o.total++
	o.hits[p]++
	o.log = append(o.log, h)
	o.inflight[p]++
	if o.inflight[p] > o.maxPath[p] {
		o.maxPath[p] = o.inflight[p]
	}
	o.cur++
	if o.cur > o.max {
		o.max = o.cur
	}
	o.activity = now()
	handler := o.handler
	o.mu.Unlock()

	left := int32(0)
	leave := func(status int, body []byte, complete bool) {
		if !atomic.CompareAndSwapInt32(&left, 0, 1) {
			return
		}
		o.mu.Lock()
		h.End, h.Status, h.Complete = now(), status, complete
		if complete {
			h.Body = sha(body)
		}
		o.inflight[p]--
		o.cur--
		o.activity = now()
		o.mu.Unlock()
	}
	defer leave(0, nil, false)

	var resp *Resp
	if handler != nil {
		resp = handler(p, h.N, r)
	}
	if resp == nil {
		o.mu.Lock()
		b, ok := o.tree[strings.TrimPrefix(p, "/")]
		o.mu.Unlock()
		if ok {
			resp = &Resp{Status: 200, Body: b}
			// servers frame the same file differently
			h := fnv.New32a()
			h.Write([]byte(p))
			switch h.Sum32() % 7 {
			case 0:
				resp.Chunked = true
			case 1:
				resp.Chunked = true
				resp.Header = map[string]string{"Connection": "close"}
			case 2:
				resp.Header = map[string]string{"Connection": "close"}
			case 3:
				resp.Hint = true
			case 4:
				// only for those who ask for it
				resp.Gzip = strings.Contains(r.Header.Get("Accept-Encoding"), "gzip")
			}
			resp = o.conditional(r, p, resp)
		} else {
			resp = &Resp{Status: 404, Body: []byte("not found\n")}
		}
	}
	if resp.Status == 0 {
		resp.Status = 200
	}
	if r.Method != "GET" && r.Method != "HEAD" {
		resp = &Resp{Status: 501, Body: []byte("what?\n")}
	}
	wait := func(g <-chan struct{}) {
		if g != nil {
			select {
			case <-g:
			case <-o.closed:
			case <-r.Context().Done(): // the client is gone
			}
		}
	}
	wait(resp.Gate)
	cut := func(pre []byte) {
		hj, ok := w.(http.Hijacker)
		if !ok {
			panic(http.ErrAbortHandler)
		}
		conn, buf, err := hj.Hijack()
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		if len(pre) > 0 {
			buf.Write(pre)
			buf.Flush()
		}
		if tc, ok := conn.(*net.TCPConn); ok && len(pre) == 0 {
			tc.SetLinger(0)
		}
		leave(resp.Status, nil, false)
		conn.Close()
	}
	if resp.Reset {
		cut(nil)
		return
	}
	if resp.Raw != nil {
		leave(resp.Status, nil, false)
		cut(resp.Raw)
		return
	}
	if resp.Trunc {
		n := resp.TruncAt
		if n <= 0 || n >= len(resp.Body) {
			n = len(resp.Body) / 2
		}
		var pre string
		if resp.Chunked {
			pre = fmt.Sprintf("HTTP/1.1 %d X\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n%x\r\n%s\r\n", resp.Status, n, resp.Body[:n])
			if n == 0 {
				pre = fmt.Sprintf("HTTP/1.1 %d X\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", resp.Status)
			}
		} else {
			pre = fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", resp.Status, len(resp.Body)+1, resp.Body[:n])
		}
		cut([]byte(pre))
		return
	}
	for k, v := range resp.Header {
		w.Header().Set(k, v)
	}
	if w.Header().Get("Content-Type") == "" {
		w.Header().Set("Content-Type", "application/octet-stream")
	}
	if resp.Hint {
		w.WriteHeader(103)
	}
	body := resp.Body
	if resp.Gzip {
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(body)
		z.Close()
		body = b.Bytes()
		w.Header().Set("Content-Encoding", "gzip")
		w.Header().Set("Vary", "Accept-Encoding")
	}
	if !resp.Chunked && resp.Status != 204 && resp.Status != 304 {
		w.Header().Set("Content-Length", fmt.Sprint(len(body)))
	}
	if resp.Status == 200 {
		// from here on a client may hold the complete body
		o.mu.Lock()
		m := o.bodies[p]
		if m == nil {
			m = map[string]bool{}
			o.bodies[p] = m
		}
		m[sha(resp.Body)] = true
		o.mu.Unlock()
	}
	w.WriteHeader(resp.Status)
	if resp.Status == 204 || resp.Status == 304 || r.Method == "HEAD" {
		leave(resp.Status, nil, false)
		return
	}
	pieces := resp.Slow
	if pieces < 1 {
		pieces = 1
	}
	if resp.MidGate != nil && pieces < 2 {
		pieces = 2
	}
	fl, _ := w.(http.Flusher)
	if resp.Chunked && fl != nil {
		fl.Flush()
	}
	// everything but the last byte goes out first; the request counts as
	// done just before its last byte is released, so that gauges never
	// overestimate what the client has in progress.
	if len(body) == 0 {
		leave(resp.Status, resp.Body, true)
		return
	}
	pre, last := body[:len(body)-1], body[len(body)-1:]
	step := (len(pre) + pieces - 1) / pieces
	for i := 0; len(pre) > 0; i++ {
		n := step
		if n > len(pre) {
			n = len(pre)
		}
		if _, err := w.Write(pre[:n]); err != nil {
			return
		}
		pre = pre[n:]
		if fl != nil && pieces > 1 {
			fl.Flush()
			time.Sleep(time.Millisecond)
		}
		if i == 0 {
			wait(resp.MidGate)
		}
	}
	leave(resp.Status, resp.Body, true)
	if _, err := w.Write(last); err != nil {
		return
	}
}
