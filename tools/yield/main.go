// yield makes a "go build -overlay" file that puts a call of verifYield
// before every statement of the given packages.  Without VERIF_YIELD in the
// environment these calls do nothing; with it, they delay goroutines at
// places picked by its value, so that runs see interleavings that ordinary
// timing does not produce.  The instrumentation follows the syntax tree
// only; it knows nothing about the code.
//
//	yield REPO OUTDIR PKG...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const runtimeSrc = `package %s

import (
	"os"
	"runtime"
	"strconv"
	"time"
)

var verifYieldSeed uint64
var verifYieldCount int

func init() {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_YIELD"), 10, 64)
	verifYieldSeed = n
}

// VerifYieldSet switches delays on (seed) or off (0).
//go:norace
func VerifYieldSet(seed uint64) { verifYieldSeed, verifYieldCount = seed, 0 }

//go:norace
func verifYieldMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// verifYield must not synchronise goroutines: the race detector would see
// less.
//go:norace
func verifYield(site uint64) {
	if verifYieldSeed == 0 {
		return
	}
	h := verifYieldMix(verifYieldSeed ^ site*0x100000001b3)
	t := verifYieldMix(uint64(time.Now().UnixNano()) ^ h)
	switch {
	case h%%12 == 0:
		// a hot place of this run
		if t%%3 != 0 || verifYieldCount > 3000 {
			return
		}
	case h%%4 == 1:
		if t%%64 != 0 || verifYieldCount > 6000 {
			return
		}
	default:
		if t%%128 == 0 {
			runtime.Gosched()
		}
		return
	}
	verifYieldCount++
	time.Sleep(time.Duration(t>>20%%3000) * time.Microsecond)
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	site := 0
	for _, pkg := range os.Args[3:] {
		files, _ := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		sort.Strings(files)
		name := ""
		for _, fn := range files {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			src, err := os.ReadFile(fn)
			if err != nil {
				fail(err)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				fail(err)
			}
			if name == "" {
				name = f.Name.Name
			}
			var at []int
			list := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						continue
					}
					at = append(at, fset.PositionFor(s.Pos(), false).Offset)
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				}
				return true
			})
			sort.Ints(at)
			var b strings.Builder
			last := 0
			for _, o := range at {
				site++
				b.Write(src[last:o])
				fmt.Fprintf(&b, "verifYield(%d);", site)
				last = o
			}
			b.Write(src[last:])
			dst := filepath.Join(out, pkg, filepath.Base(fn))
			write(dst, b.String())
			replace[fn] = dst
		}
		if name == "" {
			continue
		}
		dst := filepath.Join(out, pkg, "zz_verif_yield.go")
		write(dst, fmt.Sprintf(runtimeSrc, name))
		replace[filepath.Join(repo, pkg, "zz_verif_yield.go")] = dst
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	write(filepath.Join(out, "overlay.json"), string(j))
	fmt.Fprintf(os.Stderr, "%d statements instrumented\n", site)
}

func write(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		fail(err)
	}
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
