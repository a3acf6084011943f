package main

// The instrumenter of C27: copies of the sources in which every block and every index reports to a trace. Files are
// changed by insertion only, so that line numbers stay.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const repoModule = "github.com/fivebinaries/go-cardano-serialization"

var tracedDirs = []string{"bip32", "crypto", "crypto/edwards25519", "tx"}

const traceSrc = `// Package veriftrace records the path of an execution.
package veriftrace

import (
	"sync"
	"sync/atomic"
)

// H depends on the order of the steps, S only on which there are (and does so when goroutines take them).
var (
	H, S, N uint64
	Keep    bool
	Rec     []uint64
	mu      sync.Mutex
)

func Start(keep bool) { H, S, N, Keep, Rec = 14695981039346656037, 0, 0, keep, nil }

func note(v uint64) {
	H = (H ^ v) * 1099511628211
	H ^= H >> 29
	w := (v + 0x9e3779b97f4a7c15) * 0xbf58476d1ce4e5b9
	w = (w ^ w>>27) * 0x94d049bb133111eb
	atomic.AddUint64(&S, w^w>>31)
	atomic.AddUint64(&N, 1)
	if Keep {
		mu.Lock()
		if len(Rec) < 1<<22 {
			Rec = append(Rec, v)
		}
		mu.Unlock()
	}
}

// At reports the start of a block.
func At(n int) { note(uint64(n) << 40) }

// T and F report that the right side of a condition is looked at.
func T(n int) bool { note(uint64(n) << 40); return true }
func F(n int) bool { note(uint64(n) << 40); return false }

// Ix reports an index.
func Ix(n, i int) int {
	note(uint64(n)<<40 | 1<<39 | uint64(i)&(1<<39-1))
	return i
}

// Where names the places of the source.
var Where = []string{
%s}
`

type noImports struct{}

func (noImports) Import(string) (*types.Package, error) { return nil, errors.New("not needed") }

// instrument writes instrumented copies and the overlay into out.
func instrument(repo, out string, indexes bool) error {
	over := map[string]string{}
	var where []string
	at := func(p token.Position) int {
		rel, _ := filepath.Rel(repo, p.Filename)
		where = append(where, fmt.Sprintf("\t%q,\n", fmt.Sprintf("%s:%d:%d", rel, p.Line, p.Column)))
		return len(where) - 1
	}
	for _, d := range tracedDirs {
		names, err := filepath.Glob(filepath.Join(repo, d, "*.go"))
		if err != nil {
			return err
		}
		sort.Strings(names)
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(n)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
			if err != nil {
				return err
			}
			files, srcs = append(files, f), append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: noImports{}, Error: func(error) {}}
		conf.Check(d, fset, files, info)
		for i, f := range files {
			type ins struct {
				off, ord int
				s        string
			}
			var all []ins
			add := func(p token.Pos, s string) {
				all = append(all, ins{fset.Position(p).Offset, len(all), s})
			}
			wrap := func(e ast.Expr) {
				if e == nil || info.Types[e].Value != nil {
					return
				}
				if _, lit := e.(*ast.BasicLit); lit {
					return
				}
				add(e.Pos(), fmt.Sprintf("verif_t.Ix(%d, int(", at(fset.Position(e.Pos()))))
				// closing parentheses of inner expressions come first
				all = append(all, ins{fset.Position(e.End()).Offset, -len(all), "))"})
			}
			bodies := map[*ast.BlockStmt]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SwitchStmt:
					bodies[n.Body] = true
				case *ast.TypeSwitchStmt:
					bodies[n.Body] = true
				case *ast.SelectStmt:
					bodies[n.Body] = true
				case *ast.BlockStmt:
					if !bodies[n] {
						add(n.Lbrace+1, fmt.Sprintf(" verif_t.At(%d);", at(fset.Position(n.Lbrace))))
					}
				case *ast.CaseClause:
					add(n.Colon+1, fmt.Sprintf(" verif_t.At(%d);", at(fset.Position(n.Colon))))
				case *ast.CommClause:
					add(n.Colon+1, fmt.Sprintf(" verif_t.At(%d);", at(fset.Position(n.Colon))))
				case *ast.BinaryExpr:
					if indexes && n.Op == token.LAND {
						add(n.Y.Pos(), fmt.Sprintf("verif_t.T(%d) && ", at(fset.Position(n.Y.Pos()))))
					} else if indexes && n.Op == token.LOR {
						add(n.Y.Pos(), fmt.Sprintf("verif_t.F(%d) || ", at(fset.Position(n.Y.Pos()))))
					}
				case *ast.IndexExpr:
					t := info.Types[n.X].Type
					if !indexes || t == nil {
						break
					}
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					switch b := t.Underlying().(type) {
					case *types.Slice, *types.Array:
						wrap(n.Index)
					case *types.Basic:
						if b.Info()&types.IsString != 0 {
							wrap(n.Index)
						}
					}
				case *ast.SliceExpr:
					if indexes {
						wrap(n.Low)
						wrap(n.High)
					}
				}
				return true
			})
			add(f.Name.End(), fmt.Sprintf("; import verif_t %q", repoModule+"/veriftrace"))
			sort.SliceStable(all, func(i, j int) bool {
				if all[i].off != all[j].off {
					return all[i].off < all[j].off
				}
				return all[i].ord < all[j].ord
			})
			var b bytes.Buffer
			last := 0
			for _, x := range all {
				b.Write(srcs[i][last:x.off])
				b.WriteString(x.s)
				last = x.off
			}
			b.Write(srcs[i][last:])
			b.WriteString("\nvar _ = verif_t.At\n")
			name := fset.Position(f.Pos()).Filename
			to := filepath.Join(out, strings.ReplaceAll(d, "/", "_")+"_"+filepath.Base(name))
			if err := os.WriteFile(to, b.Bytes(), 0o644); err != nil {
				return err
			}
			over[name] = to
		}
	}
	to := filepath.Join(out, "trace.go")
	if err := os.WriteFile(to, []byte(fmt.Sprintf(traceSrc, strings.Join(where, ""))), 0o644); err != nil {
		return err
	}
	over[filepath.Join(repo, "veriftrace", "trace.go")] = to
	b, err := json.Marshal(map[string]any{"Replace": over})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
}
