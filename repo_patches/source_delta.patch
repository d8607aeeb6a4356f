From 84e8c635111a24cc3d3fea63c726cfe39f620b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 01/33] fix: skip surplus blank lines between paragraphs

A paragraph preceded by an additional blank line was taken for the end
of the file, so that all remaining paragraphs were silently dropped.
---
 apt/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apt/parser.go b/apt/parser.go
index 2f7bcb0..cf9af4b 100644
--- a/apt/parser.go
+++ b/apt/parser.go
@@ -63,6 +63,11 @@ L:
 	for p.s.Scan() {
 		switch l := p.s.Text(); {
 		case len(l) == 0:
+			if len(ret) == 0 {
+				// skip surplus blank lines before a paragraph
+				p.lastField = ""
+				continue
+			}
 			break L
 		case l[0] == '#':
 			continue
-- 
2.43.0


From 9ca8bffeab7fddf2a64387d6ce9bbcfdce560f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 02/33] fix: keep absent checksums absent when reading FileInfo
 from JSON

Absent checksums were restored as empty but non-nil slices, so that
Same() never matched and bogus by-hash paths were made.
---
 apt/fileinfo.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 7d4d0ee..b4562a7 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -159,9 +159,17 @@ func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	fi.md5sum = md5sum
-	fi.sha1sum = sha1sum
-	fi.sha256sum = sha256sum
+	// an empty string means that the checksum is absent.
+	fi.md5sum, fi.sha1sum, fi.sha256sum = nil, nil, nil
+	if len(md5sum) > 0 {
+		fi.md5sum = md5sum
+	}
+	if len(sha1sum) > 0 {
+		fi.sha1sum = sha1sum
+	}
+	if len(sha256sum) > 0 {
+		fi.sha256sum = sha256sum
+	}
 	return nil
 }
 
-- 
2.43.0


From 15deea9804f5a264500e7d205e25b490a3e51bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 03/33] fix: detect damaged Release.gz and the like with
 trailing blank lines

Only the first paragraph was read, hence the checksum at the end of
compressed data was not verified when a blank line follows it.
---
 apt/meta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apt/meta.go b/apt/meta.go
index 0249cbb..bbc892d 100644
--- a/apt/meta.go
+++ b/apt/meta.go
@@ -7,6 +7,7 @@ import (
 	"compress/gzip"
 	"encoding/hex"
 	"io"
+	"io/ioutil"
 	"path"
 	"strconv"
 	"strings"
@@ -95,6 +96,11 @@ func getFilesFromRelease(p string, r io.Reader) ([]*FileInfo, Paragraph, error)
 		return nil, nil, errors.Wrap(err, "NewParser(r).Read()")
 	}
 
+	// read through to have damages of compressed data detected.
+	if _, err := io.Copy(ioutil.Discard, r); err != nil {
+		return nil, nil, errors.Wrap(err, "reading "+p)
+	}
+
 	md5sums := d["MD5Sum"]
 	sha1sums := d["SHA1"]
 	sha256sums := d["SHA256"]
-- 
2.43.0


From e00b533cfdeaa2e064a95c05e59acc7ac7968b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 04/33] fix: reject storage paths that lead out of the cache
 directory

Storage.Insert accepted "../x" because such a path is already clean.
Files listed or requested under such a name were linked outside of the
directory given to NewStorage.
---
 cacher/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cacher/storage.go b/cacher/storage.go
index d54033e..af4c843 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -216,6 +217,8 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 		return ErrBadPath
 	case p == ".":
 		return ErrBadPath
+	case p == "..", strings.HasPrefix(p, ".."+string(filepath.Separator)):
+		return ErrBadPath
 	}
 
 	destpath := filepath.Join(cm.dir, p+fileSuffix)
-- 
2.43.0


From 515af2753a21a94f7b642baa2b3bfd0aa39087b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 05/33] fix: do not evict the whole cache for an item that can
 never fit

An item larger than the capacity evicted every other item and then
itself, and Cacher.Get downloaded it again and again without end.
---
 cacher/storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cacher/storage.go b/cacher/storage.go
index af4c843..3d5a65d 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -23,6 +23,10 @@ var (
 
 	// ErrBadPath is returned by Storage.Insert if path is bad
 	ErrBadPath = errors.New("bad path")
+
+	// ErrTooLarge is returned by Storage.Insert if the item alone exceeds
+	// the capacity of the storage.
+	ErrTooLarge = errors.New("larger than the capacity")
 )
 
 // entry represents an item in the cache.
@@ -221,6 +225,10 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 		return ErrBadPath
 	}
 
+	if cm.capacity > 0 && fi.Size() > cm.capacity {
+		return ErrTooLarge
+	}
+
 	destpath := filepath.Join(cm.dir, p+fileSuffix)
 	dirpath := filepath.Dir(destpath)
 
-- 
2.43.0


From 606ca580adbd85356dec6af4467c16f7564dc0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 06/33] fix: answer failed or invalid downloads with an error

The status of a download was recorded as 200 as soon as the upstream
server answered 200, even if the body was cut, did not match the index
or could not be stored.  Cacher.Get then fetched the item again and
again, and clients waited without end.  A failure to store an item,
which a client can provoke by requesting a file below another file,
stopped the whole process by panic.
---
 cacher/cacher.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 82a486c..18ee651 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -321,8 +321,8 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	}
 
 	defer closeRespBody(resp)
-	statusCode = resp.StatusCode
-	if statusCode != 200 {
+	if resp.StatusCode != http.StatusOK {
+		statusCode = resp.StatusCode
 		return
 	}
 
@@ -400,8 +400,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 			"path":  p,
 			"error": err.Error(),
 		})
-		// panic because go-apt-cacher cannot continue working
-		panic(err)
+		return
 	}
 
 	for _, fi2 := range fil {
@@ -415,6 +414,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		}
 	}
 	c.info[p] = fi
+	statusCode = http.StatusOK
 	log.Info("downloaded and cached", map[string]interface{}{
 		"path": p,
 	})
-- 
2.43.0


From 3e59d6607af46f1ebb48bd3fba9d3df2698edd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 07/33] fix: answer 502 for non-error upstream statuses without
 a file

Statuses such as 204, 206 and 304 were passed to clients as if their
own request had been answered so, and a status below 100 made
net/http panic in WriteHeader.
---
 cacher/cacher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 18ee651..15de372 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -323,6 +323,10 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	defer closeRespBody(resp)
 	if resp.StatusCode != http.StatusOK {
 		statusCode = resp.StatusCode
+		if statusCode < http.StatusBadRequest {
+			// Not an error by itself, but there is no file to be served.
+			statusCode = http.StatusBadGateway
+		}
 		return
 	}
 
-- 
2.43.0


From b7a667cd7b8c5e2bf668090384805eee1514a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 08/33] fix: handle request URLs with empty paths or dot-dot
 segments

"GET http://host" has an empty path, for which slicing panicked.
Paths beginning with "//" or ".." were not normalized to a path below
the root.
---
 cacher/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cacher/handler.go b/cacher/handler.go
index 2aaa68d..9126385 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -24,7 +24,7 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	p := path.Clean(r.URL.Path[1:])
+	p := path.Clean("/" + r.URL.Path)[1:]
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("request path", map[string]interface{}{
-- 
2.43.0


From d09dbffd7b2f76d4b0005dae6ced0040e091ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 09/33] fix: start with cached meta data files that cannot be
 parsed

Cacher.download accepts broken meta data as is, but NewCacher refused
to start as long as such a file was left in meta_dir, and panicked for
a file lying directly in meta_dir.
---
 cacher/cacher.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 15de372..7349c50 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -131,12 +131,20 @@ func NewCacher(config *Config) (*Cacher, error) {
 		}
 		t := strings.SplitN(fi.Path(), "/", 2)
 		if len(t) != 2 {
-			panic("there should always be a prefix!")
+			f.Close()
+			log.Warn("ignored a meta data file without prefix", map[string]interface{}{
+				"path": fi.Path(),
+			})
+			continue
 		}
 		fil, _, err := apt.ExtractFileInfo(t[1], f)
 		f.Close()
 		if err != nil {
-			return nil, errors.Wrap(err, "ExtractFileInfo("+fi.Path()+")")
+			// broken meta data are accepted as is when downloaded.
+			log.Error("invalid meta data", map[string]interface{}{
+				"path":  fi.Path(),
+				"error": err.Error(),
+			})
 		}
 		fil = addPrefix(t[0], fil)
 		for _, fi2 := range fil {
-- 
2.43.0


From 5a3ac53439a219b5c49026e10bfeac5dec34a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 10/33] fix: keep index entries inside the prefix they belong
 to

A repository listing "../other/pool/x.deb" in its indices overrode the
checksums of files of another prefix.
---
 cacher/cacher.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 7349c50..541d163 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -28,10 +28,19 @@ const (
 )
 
 // addPrefix add prefix for each *FileInfo in fil.
+// Items whose path would not be under prefix are removed.
 func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	ret := make([]*apt.FileInfo, 0, len(fil))
 	for _, fi := range fil {
-		ret = append(ret, fi.AddPrefix(prefix))
+		fi2 := fi.AddPrefix(prefix)
+		if !strings.HasPrefix(fi2.Path(), prefix+"/") {
+			log.Warn("ignored a bad path in meta data", map[string]interface{}{
+				"prefix": prefix,
+				"path":   fi.Path(),
+			})
+			continue
+		}
+		ret = append(ret, fi2)
 	}
 	return ret
 }
-- 
2.43.0


From c98e8b1e86238d582f122dddd9e0525a88ea492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 11/33] fix: validate downloads against the indices in force at
 completion

A file requested before its index was stored and completed after it
replaced the checksums of the index without having been compared with
them, so that a wrong file was served until the next index.
Conversely, a file not listed in any index was compared with its own
old copy after eviction, and could not be fetched again once it had
changed on the upstream server.
---
 cacher/cacher.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 541d163..5ddae41 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -57,6 +57,7 @@ type Cacher struct {
 
 	fiLock sync.RWMutex
 	info   map[string]*apt.FileInfo
+	listed map[string]struct{} // paths in info found in meta data files
 
 	dlLock     sync.RWMutex
 	dlChannels map[string]chan struct{}
@@ -127,6 +128,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 		client:        &http.Client{},
 		maxConns:      config.MaxConns,
 		info:          make(map[string]*apt.FileInfo),
+		listed:        make(map[string]struct{}),
 		dlChannels:    make(map[string]chan struct{}),
 		results:       make(map[string]int),
 		hostSem:       make(map[string]chan struct{}),
@@ -156,9 +158,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 			})
 		}
 		fil = addPrefix(t[0], fil)
-		for _, fi2 := range fil {
-			c.info[fi2.Path()] = fi2
-		}
+		c.addListed(fi.Path(), fil)
 	}
 
 	// add meta files w/o checksums (Release, Release.gpg, and InRelease).
@@ -173,6 +173,23 @@ func NewCacher(config *Config) (*Cacher, error) {
 	return c, nil
 }
 
+// addListed adds items listed in a meta data file p to c.info.
+// c.fiLock must be acquired beforehand if c is in use.
+func (c *Cacher) addListed(p string, fil []*apt.FileInfo) {
+	dir := path.Dir(p)
+	for _, fi := range fil {
+		if path.Dir(fi.Path()) == dir {
+			switch path.Base(fi.Path()) {
+			case "Release", "Release.gpg", "InRelease":
+				// Some tools list older versions of these files.
+				continue
+			}
+		}
+		c.info[fi.Path()] = fi
+		c.listed[fi.Path()] = struct{}{}
+	}
+}
+
 func (c *Cacher) acquireSemaphore(host string) {
 	if c.maxConns == 0 {
 		return
@@ -413,6 +430,16 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	c.fiLock.Lock()
 	defer c.fiLock.Unlock()
 
+	if _, ok := c.listed[p]; ok && !c.info[p].Same(fi) {
+		// Meta data listing p have been updated while downloading.
+		// Let the waiting requests try again with the new one.
+		log.Warn("meta data have been updated", map[string]interface{}{
+			"path": p,
+		})
+		statusCode = http.StatusOK
+		return
+	}
+
 	// To keep consistency between Cacher and Storage so that
 	// both have the same set of FileInfo, storage.Insert need to be
 	// guarded by c.fiLock.
@@ -424,9 +451,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		return
 	}
 
-	for _, fi2 := range fil {
-		c.info[fi2.Path()] = fi2
-	}
+	c.addListed(p, fil)
 	if apt.IsMeta(p) {
 		_, ok := c.info[p]
 		if !ok {
@@ -465,6 +490,10 @@ func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
 RETRY:
 	c.fiLock.RLock()
 	fi, ok := c.info[p]
+	var valid *apt.FileInfo
+	if _, listed := c.listed[p]; listed {
+		valid = fi
+	}
 	c.fiLock.RUnlock()
 
 	if ok {
@@ -493,7 +522,7 @@ RETRY:
 	if chOk {
 		<-ch
 	} else {
-		<-c.Download(p, fi)
+		<-c.Download(p, valid)
 	}
 	goto RETRY
 }
-- 
2.43.0


From e7b69c5d76ed5f54e9c20132ce26ef2949dc1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 12/33] fix: do not take checksums from stale indices at
 startup

Indices that no longer match Release were read in the order of their
names.  If a stale Packages.xz lay beside a current Packages.gz, the
checksums in the stale one came into force.
---
 cacher/cacher.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 5ddae41..f84b9cb 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -134,12 +135,23 @@ func NewCacher(config *Config) (*Cacher, error) {
 		hostSem:       make(map[string]chan struct{}),
 	}
 
+	// Release and InRelease come first to tell stale indices from others.
 	metas := meta.ListAll()
+	sort.SliceStable(metas, func(i, j int) bool {
+		return isRelease(metas[i].Path()) && !isRelease(metas[j].Path())
+	})
 	for _, fi := range metas {
 		f, err := meta.Lookup(fi)
 		if err != nil {
 			return nil, errors.Wrap(err, "meta.Lookup")
 		}
+		if listing, ok := c.info[fi.Path()]; ok && !listing.Same(fi) {
+			f.Close()
+			log.Info("ignored a stale index", map[string]interface{}{
+				"path": fi.Path(),
+			})
+			continue
+		}
 		t := strings.SplitN(fi.Path(), "/", 2)
 		if len(t) != 2 {
 			f.Close()
@@ -173,6 +185,14 @@ func NewCacher(config *Config) (*Cacher, error) {
 	return c, nil
 }
 
+func isRelease(p string) bool {
+	switch path.Base(p) {
+	case "Release", "InRelease":
+		return true
+	}
+	return false
+}
+
 // addListed adds items listed in a meta data file p to c.info.
 // c.fiLock must be acquired beforehand if c is in use.
 func (c *Cacher) addListed(p string, fil []*apt.FileInfo) {
-- 
2.43.0


From 95ae9c0cfdd994027eaaa5c503643355841f92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 13/33] fix: remember each failed download for the whole cache
 period

The timer of an older download of the same path removed the result of
a newer one.
---
 cacher/cacher.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index f84b9cb..f5f2c60 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -46,6 +46,11 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	return ret
 }
 
+// result is the HTTP status code of the last download of an item.
+type result struct {
+	statusCode int
+}
+
 // Cacher downloads and caches APT indices and deb files.
 type Cacher struct {
 	meta          *Storage
@@ -62,7 +67,7 @@ type Cacher struct {
 
 	dlLock     sync.RWMutex
 	dlChannels map[string]chan struct{}
-	results    map[string]int
+	results    map[string]*result
 
 	hostLock sync.Mutex
 	hostSem  map[string]chan struct{}
@@ -131,7 +136,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 		info:          make(map[string]*apt.FileInfo),
 		listed:        make(map[string]struct{}),
 		dlChannels:    make(map[string]chan struct{}),
-		results:       make(map[string]int),
+		results:       make(map[string]*result),
 		hostSem:       make(map[string]chan struct{}),
 	}
 
@@ -329,7 +334,8 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		c.dlLock.Lock()
 		ch := c.dlChannels[p]
 		delete(c.dlChannels, p)
-		c.results[p] = statusCode
+		r := &result{statusCode}
+		c.results[p] = r
 		c.dlLock.Unlock()
 		close(ch)
 
@@ -341,7 +347,9 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 			case <-time.After(c.cachePeriod):
 			}
 			c.dlLock.Lock()
-			delete(c.results, p)
+			if c.results[p] == r {
+				delete(c.results, p)
+			}
 			c.dlLock.Unlock()
 			return nil
 		})
@@ -533,11 +541,11 @@ RETRY:
 	// not found in storage.
 	c.dlLock.RLock()
 	ch, chOk := c.dlChannels[p]
-	result, resultOk := c.results[p]
+	r, resultOk := c.results[p]
 	c.dlLock.RUnlock()
 
-	if resultOk && result != http.StatusOK {
-		return result, nil, nil
+	if resultOk && r.statusCode != http.StatusOK {
+		return r.statusCode, nil, nil
 	}
 	if chOk {
 		<-ch
-- 
2.43.0


From ef6e419359c76c07432121355b88fa7e456b99e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 14/33] fix: do not wait for downloads that never start at
 shutdown

well.Go does nothing once the environment is canceled, so that the
channel returned by Download was never closed.  Requests and refreshes
that came late kept the process from exiting after SIGTERM.  The same
went for refreshing a Release whose prefix is no longer mapped, for
which Download returns nil.
---
 cacher/cacher.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index f5f2c60..03221a2 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -71,6 +71,8 @@ type Cacher struct {
 
 	hostLock sync.Mutex
 	hostSem  map[string]chan struct{}
+
+	done chan struct{} // closed when the environment is canceled
 }
 
 // NewCacher constructs Cacher.
@@ -138,7 +140,13 @@ func NewCacher(config *Config) (*Cacher, error) {
 		dlChannels:    make(map[string]chan struct{}),
 		results:       make(map[string]*result),
 		hostSem:       make(map[string]chan struct{}),
+		done:          make(chan struct{}),
 	}
+	well.Go(func(ctx context.Context) error {
+		<-ctx.Done()
+		close(c.done)
+		return nil
+	})
 
 	// Release and InRelease come first to tell stale indices from others.
 	metas := meta.ListAll()
@@ -274,12 +282,19 @@ func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
-			ch1 := c.Download(p, nil)
+			chs := []<-chan struct{}{c.Download(p, nil)}
 			if withGPG {
-				ch2 := c.Download(p+".gpg", nil)
-				<-ch2
+				chs = append(chs, c.Download(p+".gpg", nil))
+			}
+			for _, ch := range chs {
+				// A download does not start, nor does ch get closed,
+				// once ctx is canceled.
+				select {
+				case <-ch:
+				case <-ctx.Done():
+					return
+				}
 			}
-			<-ch1
 		}
 	}
 }
@@ -547,10 +562,15 @@ RETRY:
 	if resultOk && r.statusCode != http.StatusOK {
 		return r.statusCode, nil, nil
 	}
-	if chOk {
-		<-ch
-	} else {
-		<-c.Download(p, valid)
+	var wait <-chan struct{} = ch
+	if !chOk {
+		wait = c.Download(p, valid)
+	}
+	select {
+	case <-wait:
+	case <-c.done:
+		// going to stop.  The download may never start.
+		return http.StatusServiceUnavailable, nil, nil
 	}
 	goto RETRY
 }
-- 
2.43.0


From d2627da44bb5df776feecf23d130cf0c02a5a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 15/33] fix: reject negative check_interval and max_conns of
 go-apt-cacher

They were accepted at startup, and made the process panic later in
time.NewTicker or make(chan).
---
 cacher/cacher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 03221a2..2baf9e0 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -77,9 +77,12 @@ type Cacher struct {
 
 // NewCacher constructs Cacher.
 func NewCacher(config *Config) (*Cacher, error) {
-	if config.CheckInterval == 0 {
+	if config.CheckInterval <= 0 {
 		return nil, errors.New("invaild check_interval")
 	}
+	if config.MaxConns < 0 {
+		return nil, errors.New("max_conns must be >= 0")
+	}
 	checkInterval := time.Duration(config.CheckInterval) * time.Second
 	cachePeriod := time.Duration(config.CachePeriod) * time.Second
 
-- 
2.43.0


From c2e9a2cda925061eea9bd6a09c237cde04a23c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 16/33] fix: max_conns = 0 of go-apt-mirror disables the limit

As documented.  It made go-apt-mirror wait for a connection without
end.
---
 mirror/mirror.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 3baa163..7ee3aae 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -83,9 +83,13 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		return nil, errors.Wrap(err, id)
 	}
 
-	sem := make(chan struct{}, c.MaxConns)
-	for i := 0; i < c.MaxConns; i++ {
-		sem <- struct{}{}
+	// zero means no limit.
+	var sem chan struct{}
+	if c.MaxConns > 0 {
+		sem = make(chan struct{}, c.MaxConns)
+		for i := 0; i < c.MaxConns; i++ {
+			sem <- struct{}{}
+		}
 	}
 
 	transport := clonedTransport(http.DefaultTransport)
@@ -292,6 +296,25 @@ func closeAndRemoveFile(f *os.File) {
 	os.Remove(f.Name())
 }
 
+func (m *Mirror) acquireSemaphore(ctx context.Context) error {
+	if m.semaphore == nil {
+		return ctx.Err()
+	}
+
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-m.semaphore:
+		return nil
+	}
+}
+
+func (m *Mirror) releaseSemaphore() {
+	if m.semaphore != nil {
+		m.semaphore <- struct{}{}
+	}
+}
+
 // download is a goroutine to download an item.
 func (m *Mirror) download(ctx context.Context,
 	p string, fi *apt.FileInfo, byhash bool, ch chan<- *dlResult) {
@@ -304,7 +327,7 @@ func (m *Mirror) download(ctx context.Context,
 	defer func() {
 		r.tempfile = tempfile
 		ch <- r
-		m.semaphore <- struct{}{}
+		m.releaseSemaphore()
 	}()
 
 	var retries uint
@@ -491,10 +514,8 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	results := make(chan *dlResult, len(releases))
 
 	for _, p := range releases {
-		select {
-		case <-ctx.Done():
-			return nil, false, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquireSemaphore(ctx); err != nil {
+			return nil, false, err
 		}
 
 		go m.download(ctx, p, nil, false, results)
@@ -625,10 +646,8 @@ func (m *Mirror) reuseOrDownload(ctx context.Context, fil []*apt.FileInfo,
 			}
 		}
 
-		select {
-		case <-ctx.Done():
-			return nil, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquireSemaphore(ctx); err != nil {
+			return nil, err
 		}
 
 		env.Go(func(ctx context.Context) error {
-- 
2.43.0


From d4abfed94614dce041f8eb64f3b5ae139ed54310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 17/33] fix: refuse index entries that lead out of the mirror

A path such as "../../x" in an index made go-apt-mirror create files
outside of the directory for the mirror.
---
 mirror/storage.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mirror/storage.go b/mirror/storage.go
index f4dd9aa..b664eb2 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -112,9 +113,21 @@ func (s *Storage) Save() error {
 	return nil
 }
 
+// checkPath returns an error if p leads out of the storage.
+func checkPath(p string) error {
+	p = filepath.Clean(p)
+	if p == ".." || strings.HasPrefix(p, ".."+string(filepath.Separator)) {
+		return errors.New("bad path: " + p)
+	}
+	return nil
+}
+
 // StoreLink stores a hard link to a file into this storage.
 func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
+	if err := checkPath(p); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	_, ok := s.info[p]
@@ -140,6 +153,9 @@ func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 // with additional hard links for by-hash retrieval.
 func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
+	if err := checkPath(p); err != nil {
+		return err
+	}
 	md5p := fi.MD5SumPath()
 	sha1p := fi.SHA1Path()
 	sha256p := fi.SHA256Path()
-- 
2.43.0


From 63f007e81ec32c3306b515cf2b1cbd3cf5b93d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 18/33] fix: close the response before retrying a download

Responses were kept open until the last retry, so that there could be
six times as many connections as max_conns.
---
 mirror/mirror.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 7ee3aae..d94e51f 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -320,6 +320,7 @@ func (m *Mirror) download(ctx context.Context,
 	p string, fi *apt.FileInfo, byhash bool, ch chan<- *dlResult) {
 
 	var tempfile *os.File
+	var resp *http.Response
 	r := &dlResult{
 		path: p,
 	}
@@ -330,6 +331,12 @@ func (m *Mirror) download(ctx context.Context,
 		m.releaseSemaphore()
 	}()
 
+	defer func() {
+		if resp != nil {
+			closeRespBody(resp)
+		}
+	}()
+
 	var retries uint
 	targets := []string{p}
 	if byhash && fi != nil {
@@ -343,6 +350,10 @@ RETRY:
 		closeAndRemoveFile(tempfile)
 		tempfile = nil
 	}
+	if resp != nil {
+		closeRespBody(resp)
+		resp = nil
+	}
 
 	// allow interrupts
 	select {
@@ -375,8 +386,10 @@ RETRY:
 		ProtoMinor: 1,
 		Header:     header,
 	}
-	resp, err := m.client.Do(req.WithContext(ctx))
+	var err error
+	resp, err = m.client.Do(req.WithContext(ctx))
 	if err != nil {
+		resp = nil
 		if retries < httpRetries {
 			retries++
 			goto RETRY
@@ -384,7 +397,6 @@ RETRY:
 		r.err = err
 		return
 	}
-	defer closeRespBody(resp)
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("downloaded", map[string]interface{}{
-- 
2.43.0


From 5b7e0d6712e12f4103f964335f119e8df300ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 19/33] fix: compare checksums of Release and InRelease in both
 directions

When one of them had fewer kinds of checksums than the other, whether
they were taken as consistent depended on the order of arrival.
---
 mirror/mirror.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index d94e51f..bba647b 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -471,8 +471,13 @@ func addFileInfoToList(fi *apt.FileInfo, m map[string][]*apt.FileInfo, byhash bo
 		return nil
 	}
 
-	for _, existing := range fil {
+	for i, existing := range fil {
 		if existing.Same(fi) {
+			// fi has all the checksums of existing, or more.
+			fil[i] = fi
+			return nil
+		}
+		if fi.Same(existing) {
 			return nil
 		}
 	}
-- 
2.43.0


From 64bacc23af6dc2d23f44e8b3d450a4b430afb4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 20/33] fix: do not mirror sections whose names end with a
 configured one

"free" in the configuration matched "non-free" in the repository.
---
 mirror/config.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mirror/config.go b/mirror/config.go
index 07af65f..9bdc8c2 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -131,19 +131,20 @@ func (mc *MirrConfig) MatchingIndex(p string) bool {
 		return false
 	}
 
-	pNoExt := p[0 : len(p)-len(path.Ext(p))]
+	// section names must match as a whole.
+	pNoExt := "/" + p[0:len(p)-len(path.Ext(p))]
 	var archs []string
 	archs = append(archs, "all")
 	archs = append(archs, mc.Architectures...)
 	for _, section := range mc.Sections {
 		for _, arch := range archs {
-			t := path.Join(path.Clean(section), "binary-"+arch, "Packages")
+			t := path.Join("/", section, "binary-"+arch, "Packages")
 			if strings.HasSuffix(pNoExt, t) {
 				return true
 			}
 		}
 		if mc.Source {
-			t := path.Join(path.Clean(section), "source", "Sources")
+			t := path.Join("/", section, "source", "Sources")
 			if strings.HasSuffix(pNoExt, t) {
 				return true
 			}
-- 
2.43.0


From 35e76ac5af6d6da9b66e035dd5171ef56d595238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 21/33] fix: do not publish a mirror when info.json cannot be
 synced

---
 mirror/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index b664eb2..1f77b6d 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -104,7 +104,10 @@ func (s *Storage) Save() error {
 		return err
 	}
 
-	f.Sync()
+	err = f.Sync()
+	if err != nil {
+		return err
+	}
 	err = DirSyncTree(s.dir)
 	if err != nil {
 		return errors.Wrap(err, "DirSyncTree(s.dir)")
-- 
2.43.0


From 9edcd3766804ffc2fb6a4016970a1ede581d0498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 22/33] fix: do not skip an index whose by-hash retrieval fails

When the canonical file of an index did not match Release and the file
under by-hash/SHA256 was not found, the index was handled as missing,
and the mirror was published without it.  Other by-hash files were not
tried.
---
 mirror/mirror.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index bba647b..c30d9c8 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -340,9 +340,11 @@ func (m *Mirror) download(ctx context.Context,
 	var retries uint
 	targets := []string{p}
 	if byhash && fi != nil {
-		targets = append(targets, fi.SHA256Path())
-		targets = append(targets, fi.SHA1Path())
-		targets = append(targets, fi.MD5SumPath())
+		for _, t := range []string{fi.SHA256Path(), fi.SHA1Path(), fi.MD5SumPath()} {
+			if t != "" {
+				targets = append(targets, t)
+			}
+		}
 	}
 
 RETRY:
@@ -413,6 +415,16 @@ RETRY:
 	}
 
 	if r.status != 200 {
+		if targets[0] == p {
+			return
+		}
+		// The file exists, but its contents are not what fi tells.
+		// It must not be handled as a missing file.
+		if len(targets) > 1 {
+			targets = targets[1:]
+			goto RETRY
+		}
+		r.err = errors.New("invalid checksum for " + p)
 		return
 	}
 
-- 
2.43.0


From fdffeec169ad30152124425491abaae2262d5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 23/33] fix: reject broken configurations of go-apt-mirror at
 once

A mirror without url and a negative max_conns made it panic.  With a
relative dir, it failed after creating directories, and then removed
the other contents of that directory as garbage.
---
 mirror/config.go  | 4 ++++
 mirror/control.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/mirror/config.go b/mirror/config.go
index 9bdc8c2..e47daed 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -56,6 +56,10 @@ func isFlat(suite string) bool {
 
 // Check vaildates the configuration.
 func (mc *MirrConfig) Check() error {
+	if mc.URL.URL == nil {
+		return errors.New("no url")
+	}
+
 	if len(mc.Suites) == 0 {
 		return errors.New("no suites")
 	}
diff --git a/mirror/control.go b/mirror/control.go
index 5ba5db3..4ac6333 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -109,6 +109,13 @@ func gc(ctx context.Context, c *Config) error {
 // (or keys in c.Mirrors).  If mirrors is an empty list, all mirrors
 // will be updated.
 func Run(c *Config, mirrors []string) error {
+	if !filepath.IsAbs(c.Dir) {
+		return errors.New("dir must be an absolute path")
+	}
+	if c.MaxConns < 0 {
+		return errors.New("max_conns must be >= 0")
+	}
+
 	lockFile := filepath.Join(c.Dir, lockFilename)
 	f, err := os.Open(lockFile)
 	switch {
-- 
2.43.0


From d463af0c60044d57640f759da64e2fc24bc2cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 24/33] fix: answer waiting requests by the download they
 waited for

After a failed download, Cacher.Get looked for its status in the
results, which might have been removed already if cache_period is
short.  It then started the download again, possibly many times.
---
 cacher/cacher.go | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 2baf9e0..abca82c 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -46,8 +46,10 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	return ret
 }
 
-// result is the HTTP status code of the last download of an item.
+// result is the HTTP status code of a download of an item.
+// statusCode is valid after ch is closed.
 type result struct {
+	ch         chan struct{}
 	statusCode int
 }
 
@@ -65,9 +67,9 @@ type Cacher struct {
 	info   map[string]*apt.FileInfo
 	listed map[string]struct{} // paths in info found in meta data files
 
-	dlLock     sync.RWMutex
-	dlChannels map[string]chan struct{}
-	results    map[string]*result
+	dlLock    sync.RWMutex
+	downloads map[string]*result // in progress
+	results   map[string]*result
 
 	hostLock sync.Mutex
 	hostSem  map[string]chan struct{}
@@ -140,7 +142,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 		maxConns:      config.MaxConns,
 		info:          make(map[string]*apt.FileInfo),
 		listed:        make(map[string]struct{}),
-		dlChannels:    make(map[string]chan struct{}),
+		downloads:     make(map[string]*result),
 		results:       make(map[string]*result),
 		hostSem:       make(map[string]chan struct{}),
 		done:          make(chan struct{}),
@@ -324,21 +326,26 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 		return nil
 	}
 
+	return c.startDownload(p, u, valid).ch
+}
+
+// startDownload starts a download of an item, or joins the one in progress.
+func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *result {
 	c.dlLock.Lock()
 	defer c.dlLock.Unlock()
 
-	ch, ok := c.dlChannels[p]
+	r, ok := c.downloads[p]
 	if ok {
-		return ch
+		return r
 	}
 
-	ch = make(chan struct{})
-	c.dlChannels[p] = ch
+	r = &result{ch: make(chan struct{})}
+	c.downloads[p] = r
 	well.Go(func(ctx context.Context) error {
 		c.download(ctx, p, u, valid)
 		return nil
 	})
-	return ch
+	return r
 }
 
 // download is a goroutine to download an item.
@@ -350,12 +357,12 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	defer func() {
 		c.releaseSemaphore(u.Host)
 		c.dlLock.Lock()
-		ch := c.dlChannels[p]
-		delete(c.dlChannels, p)
-		r := &result{statusCode}
+		r := c.downloads[p]
+		delete(c.downloads, p)
+		r.statusCode = statusCode
 		c.results[p] = r
 		c.dlLock.Unlock()
-		close(ch)
+		close(r.ch)
 
 		// invalidate result cache after some interval
 		well.Go(func(ctx context.Context) error {
@@ -558,19 +565,19 @@ RETRY:
 
 	// not found in storage.
 	c.dlLock.RLock()
-	ch, chOk := c.dlChannels[p]
 	r, resultOk := c.results[p]
 	c.dlLock.RUnlock()
 
 	if resultOk && r.statusCode != http.StatusOK {
 		return r.statusCode, nil, nil
 	}
-	var wait <-chan struct{} = ch
-	if !chOk {
-		wait = c.Download(p, valid)
-	}
+	r = c.startDownload(p, u, valid)
 	select {
-	case <-wait:
+	case <-r.ch:
+		// Do not look at c.results as it may be removed already.
+		if r.statusCode != http.StatusOK {
+			return r.statusCode, nil, nil
+		}
 	case <-c.done:
 		// going to stop.  The download may never start.
 		return http.StatusServiceUnavailable, nil, nil
-- 
2.43.0


From 2e3f2c8d1d55dda1dcfe60e62997136b037dccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 25/33] fix: do not download an item again that was downloaded
 just now

A request that looked up the item before a download finished and
looked for downloads in progress after that started another one.
---
 cacher/cacher.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index abca82c..112897c 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -326,14 +326,14 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 		return nil
 	}
 
+	c.dlLock.Lock()
+	defer c.dlLock.Unlock()
 	return c.startDownload(p, u, valid).ch
 }
 
 // startDownload starts a download of an item, or joins the one in progress.
+// c.dlLock must be acquired beforehand.
 func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *result {
-	c.dlLock.Lock()
-	defer c.dlLock.Unlock()
-
 	r, ok := c.downloads[p]
 	if ok {
 		return r
@@ -541,6 +541,10 @@ func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
 	}
 
 RETRY:
+	c.dlLock.RLock()
+	last := c.results[p]
+	c.dlLock.RUnlock()
+
 	c.fiLock.RLock()
 	fi, ok := c.info[p]
 	var valid *apt.FileInfo
@@ -564,14 +568,20 @@ RETRY:
 	}
 
 	// not found in storage.
-	c.dlLock.RLock()
-	r, resultOk := c.results[p]
-	c.dlLock.RUnlock()
-
-	if resultOk && r.statusCode != http.StatusOK {
+	c.dlLock.Lock()
+	r := c.results[p]
+	if r != last {
+		// A download has finished after the lookup.
+		c.dlLock.Unlock()
+		goto RETRY
+	}
+	if r != nil && r.statusCode != http.StatusOK {
+		c.dlLock.Unlock()
 		return r.statusCode, nil, nil
 	}
 	r = c.startDownload(p, u, valid)
+	c.dlLock.Unlock()
+
 	select {
 	case <-r.ch:
 		// Do not look at c.results as it may be removed already.
-- 
2.43.0


From 798a3503f4a67d39a8735dcc3262fa1628341108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 26/33] fix: keep directories that links point to at any depth

gc took the parent of the target of each symlink as the directory in use.
The target of a link to a whole .MIRROR.DATETIME directory, or to something
below .MIRROR.DATETIME/MIRROR, was removed; every later gc then failed
because of the dangling link.
---
 mirror/control.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mirror/control.go b/mirror/control.go
index 4ac6333..4b0e0e0 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/cybozu-go/log"
@@ -63,6 +64,11 @@ func gc(ctx context.Context, c *Config) error {
 		return err
 	}
 
+	root, err := filepath.EvalSymlinks(c.Dir)
+	if err != nil {
+		return errors.Wrap(err, "gc")
+	}
+
 	// search symlinks and its pointing directories
 	for _, dentry := range dentries {
 		if (dentry.Mode() & os.ModeSymlink) == 0 {
@@ -73,7 +79,13 @@ func gc(ctx context.Context, c *Config) error {
 			return errors.Wrap(err, "gc")
 		}
 		using[dentry.Name()] = true
-		using[filepath.Base(filepath.Dir(p))] = true
+
+		// links may point anywhere into a directory, or the directory itself.
+		rel, err := filepath.Rel(root, p)
+		if err != nil {
+			return errors.Wrap(err, "gc")
+		}
+		using[strings.Split(rel, string(filepath.Separator))[0]] = true
 	}
 
 	// remove unused dentries.
-- 
2.43.0


From 68214a349af78a56c65309cf215a148a61398ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 27/33] fix: remove the temporary link of a killed update

gc took MIRROR.tmp for a link in use, so that it and the directory it points
to stayed until the same mirror was updated again.
---
 mirror/control.go | 7 ++++++-
 mirror/mirror.go  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mirror/control.go b/mirror/control.go
index 4b0e0e0..cd55c22 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -14,7 +14,8 @@ import (
 )
 
 const (
-	lockFilename = ".lock"
+	lockFilename  = ".lock"
+	tmpLinkSuffix = ".tmp"
 )
 
 func updateMirrors(ctx context.Context, c *Config, mirrors []string) error {
@@ -74,6 +75,10 @@ func gc(ctx context.Context, c *Config) error {
 		if (dentry.Mode() & os.ModeSymlink) == 0 {
 			continue
 		}
+		if id := strings.TrimSuffix(dentry.Name(), tmpLinkSuffix); id != dentry.Name() && c.Mirrors[id] != nil {
+			// left by a process killed in replaceLink
+			continue
+		}
 		p, err := filepath.EvalSymlinks(filepath.Join(c.Dir, dentry.Name()))
 		if err != nil {
 			return errors.Wrap(err, "gc")
diff --git a/mirror/mirror.go b/mirror/mirror.go
index c30d9c8..276b654 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -163,7 +163,7 @@ func (m *Mirror) extractItems(indices []*apt.FileInfo, indexMap map[string][]*ap
 }
 
 func (m *Mirror) replaceLink() error {
-	tname := filepath.Join(m.dir, m.id+".tmp")
+	tname := filepath.Join(m.dir, m.id+tmpLinkSuffix)
 	os.Remove(tname)
 	err := os.Symlink(filepath.Join(m.storage.Dir(), m.id), tname)
 	if err != nil {
-- 
2.43.0


From 6dfb1c7953fbe742fa886171b39bc7b506ac2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 28/33] fix: do not fail if the directory for the time of start
 exists

An update failed when another one of the same mirror, killed or successful,
had started in the same second.
---
 mirror/mirror.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 276b654..60be771 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -75,6 +75,11 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 
 	d := filepath.Join(dir, "."+id+"."+t.Format(timestampFormat))
 	err = os.Mkdir(d, 0755)
+	for i := 1; os.IsExist(err); i++ {
+		// made in the same second, or an hour ago before DST ended.
+		d = filepath.Join(dir, fmt.Sprintf(".%s.%s.%d", id, t.Format(timestampFormat), i))
+		err = os.Mkdir(d, 0755)
+	}
 	if err != nil {
 		return nil, errors.Wrap(err, id)
 	}
-- 
2.43.0


From 085aed43302d6c36fa2c7fbf128742cee813b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 29/33] fix: wait for downloads of Release files when one of
 them fails

The downloads went on while the directory they write to was removed, and
could leave it behind.
---
 mirror/mirror.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 60be771..35a08e2 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -546,6 +546,19 @@ func (m *Mirror) handleReleaseResults(results <-chan *dlResult, byhash *bool) ([
 func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string][]*apt.FileInfo, bool, error) {
 	releases := m.mc.ReleaseFiles(suite)
 	results := make(chan *dlResult, len(releases))
+	pending := 0
+
+	// on return, stop and wait for the remaining downloads, lest they
+	// leave temporary files behind.
+	ctx, cancel := context.WithCancel(ctx)
+	defer func() {
+		cancel()
+		for ; pending > 0; pending-- {
+			if r := <-results; r.tempfile != nil {
+				closeAndRemoveFile(r.tempfile)
+			}
+		}
+	}()
 
 	for _, p := range releases {
 		if err := m.acquireSemaphore(ctx); err != nil {
@@ -553,11 +566,13 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 		}
 
 		go m.download(ctx, p, nil, false, results)
+		pending++
 	}
 
 	byhash := true
 	filMap := make(map[string][]*apt.FileInfo)
-	for i := 0; i < len(releases); i++ {
+	for pending > 0 {
+		pending--
 		fil, err := m.handleReleaseResults(results, &byhash)
 		if err != nil {
 			return nil, byhash, err
-- 
2.43.0


From a714a6babd7f1cf77d8945d05e6b054fde90912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 30/33] fix: update a mirror named twice just once

---
 mirror/control.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mirror/control.go b/mirror/control.go
index cd55c22..93d1acc 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -22,7 +22,13 @@ func updateMirrors(ctx context.Context, c *Config, mirrors []string) error {
 	t := time.Now()
 
 	var ml []*Mirror
+	seen := make(map[string]bool)
 	for _, id := range mirrors {
+		if seen[id] {
+			continue
+		}
+		seen[id] = true
+
 		m, err := NewMirror(t, id, c)
 		if err != nil {
 			return err
-- 
2.43.0


From a14e570d2ec83dfbde409c5a68fa6bbbb034024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 31/33] fix: do not read whole cached files into memory to
 calculate checksums

After a restart, the first lookup of a cached file read all of it into
memory, with the storage locked.
---
 apt/fileinfo.go   | 15 +++++++++++++++
 cacher/storage.go | 17 ++++-------------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index b4562a7..a43cc13 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"io"
+	"io/ioutil"
 	"path"
 
 	"github.com/pkg/errors"
@@ -71,6 +72,20 @@ func (fi *FileInfo) CalcChecksums(data []byte) {
 	fi.sha256sum = sha256sum[:]
 }
 
+// CalcChecksumsFrom calculates checksums of all data of src
+// and stores them in fi.
+func (fi *FileInfo) CalcChecksumsFrom(src io.Reader) error {
+	fi2, err := CopyWithFileInfo(ioutil.Discard, src, fi.path)
+	if err != nil {
+		return err
+	}
+	fi.size = fi2.size
+	fi.md5sum = fi2.md5sum
+	fi.sha1sum = fi2.sha1sum
+	fi.sha256sum = fi2.sha256sum
+	return nil
+}
+
 // AddPrefix creates a new FileInfo by prepending prefix to the path.
 func (fi *FileInfo) AddPrefix(prefix string) *FileInfo {
 	newFI := *fi
diff --git a/cacher/storage.go b/cacher/storage.go
index 3d5a65d..b7166cc 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -139,16 +139,6 @@ func (cm *Storage) maint() {
 	}
 }
 
-func readData(path string) ([]byte, error) {
-	f, err := os.Open(path)
-	if err != nil {
-		return nil, err
-	}
-	defer f.Close()
-
-	return ioutil.ReadAll(f)
-}
-
 // Load loads existing items in filesystem.
 func (cm *Storage) Load() error {
 	cm.mu.Lock()
@@ -290,12 +280,13 @@ func calcChecksum(dir string, e *entry) error {
 		return nil
 	}
 
-	data, err := readData(filepath.Join(dir, e.FilePath()))
+	f, err := os.Open(filepath.Join(dir, e.FilePath()))
 	if err != nil {
 		return err
 	}
-	e.FileInfo.CalcChecksums(data)
-	return nil
+	defer f.Close()
+
+	return e.FileInfo.CalcChecksumsFrom(f)
 }
 
 // Lookup looks up an item in the cache.
-- 
2.43.0


From 76b1031065171dfaa57e8d14b5ce8a0dc6a2fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 32/33] fix: do not keep files waiting to be stored open

Results of downloads may pile up when the upstream is fast, and each of
them held an open file: a mirror of many files failed with "too many
open files" regardless of max_conns.
---
 mirror/mirror.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 35a08e2..7cdcd00 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -331,6 +331,11 @@ func (m *Mirror) download(ctx context.Context,
 	}
 
 	defer func() {
+		if tempfile != nil && fi != nil {
+			// Unlike Release files, its contents will not be read.
+			// Any number of results may wait for being received.
+			tempfile.Close()
+		}
 		r.tempfile = tempfile
 		ch <- r
 		m.releaseSemaphore()
-- 
2.43.0


From 93b9301fb898f2bb464d4a37a849bfe2d1a0651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 33/33] fix: replace cached files atomically

A process killed between the removal of the old file and the link of the
new one lost the file, e.g. Release when it was re-checked.
---
 cacher/storage.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/cacher/storage.go b/cacher/storage.go
index b7166cc..0cc2e9a 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -198,6 +198,21 @@ func (cm *Storage) TempFile() (*os.File, error) {
 	return ioutil.TempFile(cm.dir, "_tmp")
 }
 
+// replaceFile makes destpath a hard link to filename atomically, so that
+// there always is a file even if the process is killed.
+// cm.mu lock must be acquired beforehand.
+func (cm *Storage) replaceFile(filename, destpath string) error {
+	tmpname := filepath.Join(cm.dir, "_tmp_link")
+	os.Remove(tmpname)
+	err := os.Link(filename, tmpname)
+	if err != nil {
+		return err
+	}
+	// rename does nothing if destpath is a link to the same file.
+	defer os.Remove(tmpname)
+	return os.Rename(tmpname, destpath)
+}
+
 // Insert inserts or updates a cache item.
 //
 // fi.Path() must be as clean as filepath.Clean() and
@@ -237,14 +252,9 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 	defer cm.mu.Unlock()
 
 	if existing, ok := cm.cache[p]; ok {
-		err = os.Remove(destpath)
+		err = cm.replaceFile(filename, destpath)
 		if err != nil {
-			if !os.IsNotExist(err) {
-				return err
-			}
-			log.Warn("cache file was removed already", map[string]interface{}{
-				"path": p,
-			})
+			return err
 		}
 		cm.used -= existing.Size()
 		heap.Remove(cm, existing.index)
@@ -254,11 +264,11 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 				"path": p,
 			})
 		}
-	}
-
-	err = os.Link(filename, destpath)
-	if err != nil {
-		return err
+	} else {
+		err = os.Link(filename, destpath)
+		if err != nil {
+			return err
+		}
 	}
 
 	e := &entry{
-- 
2.43.0

