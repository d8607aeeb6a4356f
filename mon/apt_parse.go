package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/cybozu-go/aptutil/apt"
)

func init() {
	register("A01", &checkDef{fn: checkA01, level: "exploration", minDistinct: 200,
		rule:  "random control files rendered from a model (fields, continuations, comments, empty values, blank-line runs, CRLF, long lines, clear-signing) and read back through readers of different chunkings; plus malformed variants and read errors at every kind of position. Non-trivial: at least two paragraphs or a noise feature (comment, CRLF, PGP, long line, blank run, error)",
		assum: []string{"whitespace-only lines, duplicate field names and dash-escaped lines are not generated"}})
	register("A03", &checkDef{fn: checkA03, level: "exploration", minDistinct: 500,
		rule:  "mutated and random byte strings under every index name and compression; each input is classified, parsed and extracted twice and the outcomes compared. Non-trivial: distinct input that reached the parser, a decompressor error or an extraction result",
		assum: []string{"termination is observed with a watchdog of 200 s per input of at most 256 KiB"}})
}

type ctlField struct {
	Name string
	Vals []string // non-empty trimmed values
	// rendering
	emptyHead bool
}

type ctlPara []ctlField

const ctlChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.~/<>()@:,;=_*?!'\"[]{}|&%$#^ \t"

func randVal(rng *rand.Rand, n int) string {
	b := make([]byte, 1+rng.Intn(n))
	for i := range b {
		b[i] = ctlChars[rng.Intn(len(ctlChars))]
	}
	s := strings.Trim(string(b), " \t")
	if s == "" {
		s = "v"
	}
	if rng.Intn(10) == 0 {
		s += "é日本"
	}
	return s
}

func genParas(rng *rand.Rand, longMax int) ([]ctlPara, map[string]bool) {
	feat := map[string]bool{}
	n := rng.Intn(7)
	if n > 1 {
		feat["multi"] = true
	}
	var ps []ctlPara
	for i := 0; i < n; i++ {
		var p ctlPara
		used := map[string]bool{}
		k := 1 + rng.Intn(6)
		nonEmpty := false
		for j := 0; j < k; j++ {
			name := []string{"Package", "Version", "Size", "Filename", "MD5sum", "SHA256", "Depends", "X-Weird_Field", "Description", "Tag", "Files", "Checksums-Sha1"}[rng.Intn(12)]
			if used[name] {
				continue
			}
			used[name] = true
			f := ctlField{Name: name}
			switch rng.Intn(6) {
			case 0: // empty value
				feat["empty"] = true
				f.emptyHead = true
			case 1: // folded, empty first line
				f.emptyHead = true
				for m := 1 + rng.Intn(4); m > 0; m-- {
					f.Vals = append(f.Vals, randVal(rng, 40))
				}
				feat["cont"] = true
			case 2:
				for m := 2 + rng.Intn(4); m > 0; m-- {
					f.Vals = append(f.Vals, randVal(rng, 40))
				}
				feat["cont"] = true
			case 3:
				if longMax > 0 && rng.Intn(3) == 0 {
					f.Vals = []string{strings.Repeat("x", 1+rng.Intn(longMax)) + "y"}
					feat["long"] = true
				} else {
					f.Vals = []string{randVal(rng, 200)}
				}
			default:
				f.Vals = []string{randVal(rng, 30)}
			}
			if len(f.Vals) > 0 {
				nonEmpty = true
			}
			p = append(p, f)
		}
		if !nonEmpty {
			p = append(p, ctlField{Name: "Filler", Vals: []string{fmt.Sprint("f", rng.Int31())}})
		}
		ps = append(ps, p)
	}
	return ps, feat
}

type ctlStyle struct {
	crlf, comments, pgp, lead, trail, noFinalNL bool
	maxBlank                                    int
}

func randStyle(rng *rand.Rand) ctlStyle {
	return ctlStyle{crlf: rng.Intn(4) == 0, comments: rng.Intn(3) == 0, pgp: rng.Intn(4) == 0,
		lead: rng.Intn(5) == 0, trail: rng.Intn(3) == 0, noFinalNL: rng.Intn(4) == 0, maxBlank: 1 + rng.Intn(3)*rng.Intn(2)}
}

func renderParas(rng *rand.Rand, ps []ctlPara, st ctlStyle) []byte {
	var b bytes.Buffer
	nl := "\n"
	if st.crlf {
		nl = "\r\n"
	}
	comment := func() {
		if st.comments && rng.Intn(3) == 0 {
			b.WriteString("# comment: " + randVal(rng, 20) + nl)
		}
	}
	if st.pgp {
		b.WriteString("-----BEGIN PGP SIGNED MESSAGE-----" + nl + "Hash: SHA512" + nl)
		if rng.Intn(2) == 0 {
			b.WriteString("Comment: not a field" + nl)
		}
		b.WriteString(nl)
	}
	if st.lead {
		for i := 0; i <= rng.Intn(3); i++ {
			b.WriteString(nl)
		}
	}
	for i, p := range ps {
		if i > 0 {
			for k := 1 + rng.Intn(st.maxBlank); k > 0; k-- {
				b.WriteString(nl)
			}
		}
		comment()
		for _, f := range p {
			vs := f.Vals
			sep := []string{": ", ":", ":\t", ":   "}[rng.Intn(4)]
			if f.emptyHead {
				b.WriteString(f.Name + ":" + []string{"", " ", "\t "}[rng.Intn(3)] + nl)
			} else {
				b.WriteString(f.Name + sep + vs[0] + []string{"", "", " ", "\t"}[rng.Intn(4)] + nl)
				vs = vs[1:]
			}
			for _, v := range vs {
				comment()
				b.WriteString([]string{" ", "\t", "  ", " \t"}[rng.Intn(4)] + v + []string{"", " "}[rng.Intn(2)] + nl)
			}
		}
		comment()
	}
	if st.trail {
		for i := 0; i <= rng.Intn(3); i++ {
			b.WriteString(nl)
		}
	}
	if st.pgp {
		b.WriteString("-----BEGIN PGP SIGNATURE-----" + nl + "Version: GnuPG v2" + nl + nl + "iQEcBAEBCAAGBQJXabc" + nl + "Package: phantom" + nl + "=abcd" + nl + "-----END PGP SIGNATURE-----" + nl)
	} else if st.noFinalNL && !st.trail && len(ps) > 0 {
		d := b.Bytes()
		return d[:len(d)-len(nl)]
	}
	return b.Bytes()
}

// readAll drains a parser.
func readAllParas(r io.Reader) (ps []apt.Paragraph, err error) {
	p := apt.NewParser(r)
	for i := 0; ; i++ {
		d, err := p.Read()
		if err == io.EOF {
			// EOF must be sticky
			if d2, err2 := p.Read(); err2 != io.EOF || d2 != nil {
				return ps, fmt.Errorf("read after EOF gave %v %v", d2, err2)
			}
			return ps, nil
		}
		if err != nil {
			if d2, err2 := p.Read(); err2 == nil {
				return ps, fmt.Errorf("parser went on after an error: %v", d2)
			} else if err2 == io.EOF {
				return ps, errBecameEOF
			}
			return ps, err
		}
		ps = append(ps, d)
		if i > 10_000_000 {
			return ps, errors.New("parser does not stop")
		}
	}
}

var errBecameEOF = errors.New("an error turned into EOF")

func diffParas(want []ctlPara, got []apt.Paragraph) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d paragraphs expected, %d returned", len(want), len(got))
	}
	for i, p := range want {
		exp := map[string][]string{}
		for _, f := range p {
			if len(f.Vals) > 0 {
				exp[f.Name] = f.Vals
			}
		}
		names := map[string]bool{}
		for _, f := range p {
			names[f.Name] = true
		}
		for k, v := range got[i] {
			if !names[k] {
				return fmt.Sprintf("paragraph %d: unexpected field %q = %q", i, k, head(fmt.Sprint(v), 200))
			}
		}
		for k, v := range exp {
			g := got[i][k]
			if len(g) != len(v) {
				return fmt.Sprintf("paragraph %d field %q: %d values, want %d", i, k, len(g), len(v))
			}
			for j := range v {
				if g[j] != v[j] {
					return fmt.Sprintf("paragraph %d field %q value %d: %q, want %q", i, k, j, head(g[j], 100), head(v[j], 100))
				}
			}
		}
		for n := range names {
			if _, ok := exp[n]; !ok {
				for _, v := range got[i][n] {
					if v != "" {
						return fmt.Sprintf("paragraph %d field %q should be empty, got %q", i, n, v)
					}
				}
			}
		}
	}
	return ""
}

// chunkReader returns data in random pieces.
type chunkReader struct {
	b   []byte
	rng *rand.Rand
	max int
	eof bool // deliver io.EOF together with the last bytes
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.rng.Intn(c.max)
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if c.eof && len(c.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var errInjected = errors.New("injected read error")

func checkA01(c *Ctx) {
	a01Scale(c)
	n := c.N(6000, 200000)
	c.Parallel(n, 8, func(i int) {
		rng := c.Rng(fmt.Sprint("gen", i))
		longMax := 0
		switch {
		case i%50 == 0:
			longMax = 1000000
		case i%5 == 0:
			longMax = 70000
		}
		ps, feat := genParas(rng, longMax)
		st := randStyle(rng)
		data := renderParas(rng, ps, st)
		for f, on := range map[string]bool{"crlf": st.crlf, "comments": st.comments, "pgp": st.pgp, "lead": st.lead, "trail": st.trail, "blank": st.maxBlank > 1} {
			if on {
				feat[f] = true
			}
		}
		var fl []string
		for f := range feat {
			fl = append(fl, f)
			c.Count("feature_"+f, 1)
		}
		sort.Strings(fl)
		readers := map[string]io.Reader{
			"whole": bytes.NewReader(data),
			"chunk": &chunkReader{b: data, rng: rng, max: 1 + rng.Intn(5000), eof: rng.Intn(2) == 0},
		}
		if len(data) < 20000 {
			readers["bytewise"] = iotest.OneByteReader(bytes.NewReader(data))
		}
		for rn, r := range readers {
			got, err := readAllParas(r)
			w := map[string]interface{}{"input": head(string(data), 3000), "reader": rn, "features": fl}
			if err != nil {
				c.Violate(w, "well-formed control file refused: %v", err)
				return
			}
			if d := diffParas(ps, got); d != "" {
				c.Violate(w, "parser result differs from the file: %s", d)
				return
			}
		}
		key := ""
		if len(fl) > 0 {
			key = strings.Join(fl, "+") + "/" + sha(data)[:16]
		}
		c.Eval(key)
		if i < 2 {
			c.Sample(map[string]interface{}{"input": head(string(data), 500), "paragraphs": len(ps)})
		}
		if len(ps) == 0 || longMax > 100000 {
			return
		}

		// a failing reader must never end in a clean EOF
		cut := rng.Intn(len(data) + 1)
		part, err := readAllParas(io.MultiReader(bytes.NewReader(data[:cut]), iotest.ErrReader(readErrors[rng.Intn(len(readErrors))])))
		inSig := st.pgp && bytes.Contains(data[:cut], []byte("BEGIN PGP SIGNATURE"))
		if err == nil || (err == errBecameEOF) {
			c.Violate(map[string]interface{}{"input": head(string(data), 2000), "cut": cut}, "read error after %d bytes (in signature: %v) was not reported: %v", cut, inSig, err)
			return
		}
		// what came before is complete
		if len(part) > len(ps) {
			c.Violate(map[string]interface{}{"input": head(string(data), 2000), "cut": cut}, "read error after %d bytes: %d paragraphs of %d returned", cut, len(part), len(ps))
			return
		}
		if d := diffParas(ps[:len(part)], part); d != "" {
			c.Violate(map[string]interface{}{"input": head(string(data), 2000), "cut": cut}, "a paragraph returned before a read error at byte %d differs from the file: %s", cut, d)
			return
		}
		c.Count("read_errors_injected", 1)

		// malformed lines must be reported
		bad := renderMalformed(rng, ps)
		_, err = readAllParas(bytes.NewReader(bad))
		if err == nil || err == errBecameEOF {
			c.Violate(map[string]interface{}{"input": head(string(bad), 2000)}, "malformed control file gave no (lasting) error: %v", err)
			return
		}
		c.Count("malformed_files", 1)
	})
	// lines around the documented limit of 1 MiB
	for _, n := range []int{65535, 65536, 65537, 1 << 19, 1<<20 - 200, 1 << 21, 3 << 20} {
		for _, tailPara := range []bool{false, true} {
			l := "Depends: " + strings.Repeat("z", n-12) + "end"
			in := "Package: a\n\nPackage: b\n" + l + "\nSize: 3\n"
			want := 2
			if tailPara {
				in += "\nPackage: c\n"
				want = 3
			}
			got, err := readAllParas(strings.NewReader(in))
			ok := err == nil && len(got) == want && got[1]["Depends"][0] == l[9:] && len(got[1]["Size"]) == 1
			if n < 1<<20 && !ok {
				c.Violate(n, "line of %d bytes (limit 1 MiB) is not handled: %d paragraphs, %v", n, len(got), err)
			}
			if n > 1<<20 && !ok && (err == nil || err == errBecameEOF) {
				c.Violate(n, "overlong line of %d bytes shortens the result silently", n)
			}
			c.Eval(fmt.Sprint("long", n, tailPara))
		}
	}
}

func renderMalformed(rng *rand.Rand, ps []ctlPara) []byte {
	k := rng.Intn(len(ps))
	pre := renderParas(rng, ps[:k], ctlStyle{maxBlank: 1})
	one := renderParas(rng, ps[k:k+1], ctlStyle{maxBlank: 1})
	post := renderParas(rng, ps[k+1:], ctlStyle{maxBlank: 1})
	if k > 0 {
		pre = append(pre, '\n')
	}
	var badPara []byte
	switch rng.Intn(3) {
	case 0: // continuation without a field
		badPara = append([]byte(" orphan continuation\n"), one...)
	case 1:
		badPara = append(append([]byte{}, one...), "no colon here\n"...)
	default:
		badPara = append([]byte("garbage\n"), one...)
	}
	out := append(append([]byte{}, pre...), badPara...)
	if len(post) > 0 {
		out = append(append(out, '\n'), post...)
	}
	return out
}

// ------------------------------------------------------------------ A03

func checkA03(c *Ctx) {
	names := []string{"Release", "InRelease", "Release.gpg", "Packages", "Sources", "Index"}
	exts := []string{"", ".gz", ".bz2", ".xz", ".lzma", ".lz", ".gpg", ".zst"}
	dirs := []string{"", "dists/x/", "dists/x/main/binary-amd64/", "../../", "/", "a//b/./"}
	// corpus of valid files
	crng := c.Rng("corpus")
	var corpus [][]byte
	for k := 0; k < 6; k++ {
		r := GenRepo(crng, GenOpts{Suites: []string{"s"}, Sections: []string{"main"}, Archs: []string{"amd64"}, Source: true, PkgsPer: 4, MaxSize: 50, Exts: []string{"", ".gz", ".xz", ".bz2"}, I18n: true})
		b := r.Build()
		for _, p := range sortedKeys(b.Tree) {
			if apt.IsMeta(p) {
				corpus = append(corpus, b.Tree[p])
			}
		}
	}
	toks := []string{"\n", "\n\n", ":", " ", "\t", "#", "Filename: ", "Size: ", "-1", "18446744073709551616", "MD5Sum:", "SHA256:\n ", "Directory: ", "Files:\n ", "Checksums-Sha1:\n", "-----BEGIN PGP SIGNED MESSAGE-----\n", "-----BEGIN PGP SIGNATURE-----\n", "\x00", "\xff", "\r\n", "../", "/", "\x1f\x8b\x08\x00", "BZh9", "\xfd7zXZ\x00", "MD5Sum: \n", "Filename:\n", "Size:\n", "SHA1:\nSHA1:\n", "\n \n", "\n \t \n", "SHA256:\n \n", "Files:\n x\n", " 00\n", " 00 1\n"}
	n := c.N(16000, 500000)
	c.Parallel(n, 8, func(i int) {
		rng := c.Rng(fmt.Sprint("in", i))
		var data []byte
		switch rng.Intn(8) {
		case 0:
			data = make([]byte, rng.Intn(3000))
			rng.Read(data)
		case 1:
			var b bytes.Buffer
			for k := rng.Intn(40); k > 0; k-- {
				b.WriteString(toks[rng.Intn(len(toks))])
				if rng.Intn(2) == 0 {
					b.WriteString(randVal(rng, 20))
				}
			}
			data = b.Bytes()
		default:
			data = append([]byte{}, corpus[rng.Intn(len(corpus))]...)
			for k := 1 + rng.Intn(6); k > 0; k-- {
				pos := rng.Intn(len(data) + 1)
				switch rng.Intn(7) {
				case 6:
					// a line loses fields, or gains some
					ls := bytes.Split(data, []byte("\n"))
					li := rng.Intn(len(ls))
					l := ls[li]
					ind := len(l) - len(bytes.TrimLeft(l, " "))
					fl := bytes.Fields(l)
					if len(fl) == 0 {
						break
					}
					switch rng.Intn(4) {
					case 0:
						fl = nil
					case 1:
						fl = fl[:rng.Intn(len(fl))]
					case 2:
						fl = append(fl, fl...)
					case 3:
						q := rng.Intn(len(fl))
						fl[q] = []byte([]string{"-1", "x", "99999999999999999999", "00", "0x10", "1e3"}[rng.Intn(6)])
					}
					ls[li] = append(append([]byte{}, l[:ind]...), bytes.Join(fl, []byte(" "))...)
					data = bytes.Join(ls, []byte("\n"))
				case 0:
					data = data[:pos]
				case 1:
					if pos < len(data) {
						data[pos] ^= byte(1 << uint(rng.Intn(8)))
					}
				case 2:
					t := toks[rng.Intn(len(toks))]
					data = append(data[:pos:pos], append([]byte(t), data[pos:]...)...)
				case 3:
					e := pos + rng.Intn(200)
					if e > len(data) {
						e = len(data)
					}
					data = append(data[:pos:pos], data[e:]...)
				case 4:
					o := corpus[rng.Intn(len(corpus))]
					q := rng.Intn(len(o) + 1)
					data = append(data[:pos:pos], o[q:]...)
				case 5:
					e := pos + rng.Intn(100)
					if e > len(data) {
						e = len(data)
					}
					data = append(data, data[pos:e]...)
				}
			}
		}
		p := dirs[rng.Intn(len(dirs))] + names[rng.Intn(len(names))] + exts[rng.Intn(len(exts))]
		raw := data
		switch rng.Intn(4) {
		case 0:
			data = compress(".gz", data)
		case 1:
			if rng.Intn(4) == 0 {
				data = compress(".xz", data)
			}
		}
		if rng.Intn(20) == 0 {
			b := make([]byte, rng.Intn(30))
			rng.Read(b)
			p = string(b)
		}
		arbitraryInput(c, p, data)
		if !bytes.Equal(raw, data) {
			arbitraryInput(c, p, raw)
		}
	})
	// classification of arbitrary strings
	rng := c.Rng("class")
	for i := 0; i < c.N(50000, 2000000); i++ {
		var p string
		switch i % 3 {
		case 0:
			b := make([]byte, rng.Intn(20))
			rng.Read(b)
			p = string(b)
		default:
			for k := rng.Intn(5); k >= 0; k-- {
				p += []string{"Release", "Packages", ".gz", ".xz", ".", "/", "..", "", "InRelease", ".gpg", "Index", "\x00", ".bz2", ".lzma", " "}[rng.Intn(15)]
			}
		}
		c.Guard(fmt.Sprintf("classify %q", p), func() {
			if apt.IsMeta(p) != apt.IsMeta(p) || apt.IsSupported(p) != apt.IsSupported(p) {
				c.Violate(p, "classification is not deterministic")
			}
		})
	}
	c.Count("paths_classified", c.N(50000, 2000000))
}

func arbitraryInput(c *Ctx, p string, data []byte) {
	if c.Failed() && !c.Thorough() {
		return
	}
	type outcome struct {
		paras, parErr, ext string
		panicked           bool
	}
	done := make(chan [2]outcome, 1)
	go func() {
		var o [2]outcome
		for k := 0; k < 2; k++ {
			k := k
			o[k].panicked = c.Guard(fmt.Sprintf("input under %q: %q", p, head(string(data), 2000)), func() {
				ps, err := readAllParas(bytes.NewReader(data))
				o[k].paras, o[k].parErr = fmt.Sprint(ps), fmt.Sprint(err)
				fil, _, err := apt.ExtractFileInfo(p, bytes.NewReader(data))
				var l []string
				for _, fi := range fil {
					if fi == nil {
						c.Violate(p, "nil entry returned")
						continue
					}
					j, jerr := fi.MarshalJSON()
					l = append(l, fmt.Sprint(string(j), jerr))
				}
				sort.Strings(l)
				o[k].ext = fmt.Sprint(l, err)
				if err != nil && len(fil) > 0 {
					c.Violate(map[string]interface{}{"path": p, "input": fmt.Sprintf("%q", head(string(data), 2000))}, "extraction returned both a list and an error")
				}
				if err == nil {
					c.Count("extractions_ok", 1)
				} else {
					c.Count("extraction_errors", 1)
				}
				if apt.IsMeta(p) != apt.IsMeta(p) || apt.IsSupported(p) != apt.IsSupported(p) {
					c.Violate(p, "classification is not deterministic")
				}
			})
		}
		done <- o
	}()
	select {
	case o := <-done:
		if o[0].panicked || o[1].panicked {
			return
		}
		if o[0] != o[1] {
			c.Violate(map[string]interface{}{"path": p, "input": fmt.Sprintf("%q", head(string(data), 2000)), "first": head(fmt.Sprint(o[0]), 1000), "second": head(fmt.Sprint(o[1]), 1000)}, "the same input gave two answers")
			return
		}
		c.Eval(sha(append([]byte(p+"\x00"), data...))[:20])
	case <-watchdogAfter(200):
		c.Violate(map[string]interface{}{"path": p, "input": fmt.Sprintf("%q", head(string(data), 4000))}, "handling an input of %d bytes does not terminate (200 s)", len(data))
	}
}
