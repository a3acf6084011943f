package main

// Generators: boundary-biased values and a dictionary of the literals in /repo's sources.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"math/bits"
	"math/rand/v2"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const repoDir = "/repo"

var dictInts []uint64
var dictStrs []string

func dictSize() int {
	if dictInts == nil {
		loadDict()
	}
	return len(dictInts) + len(dictStrs)
}

// loadDict collects the integer and string literals of the library's current sources (a fuzzing dictionary).
func loadDict() {
	ints, strs := map[uint64]bool{}, map[string]bool{}
	add := func(v uint64) { ints[v] = true; ints[v+1] = true; ints[v-1] = true }
	filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "examples" || d.Name() == "testdata") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, "edwards25519/const.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		lit := func(e ast.Expr) (uint64, bool) {
			if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.INT {
				v, err := strconv.ParseUint(b.Value, 0, 64)
				return v, err == nil
			}
			return 0, false
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				a, ok1 := lit(x.X)
				b, ok2 := lit(x.Y)
				if ok1 && ok2 {
					switch x.Op {
					case token.SHL:
						if b < 64 {
							add(a << b)
						}
					case token.MUL:
						add(a * b)
					case token.ADD:
						add(a + b)
					case token.SUB:
						add(a - b)
					}
				} else if ok2 && (x.Op == token.SHR || x.Op == token.SHL) && b < 64 {
					add(1 << b)
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, ok := lit(x); ok {
						add(v)
						if v < 64 {
							add(1 << v)
						}
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(x.Value, 64); err == nil && v >= 0 && v < 1.8e19 {
						add(uint64(v))
					}
				case token.CHAR:
					if s, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\''); err == nil {
						add(uint64(s))
					}
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 0 && len(s) < 200 {
						strs[s] = true
					}
				}
			}
			return true
		})
		return nil
	})
	dictInts, dictStrs = []uint64{}, []string{}
	for v := range ints {
		dictInts = append(dictInts, v)
	}
	for s := range strs {
		dictStrs = append(dictStrs, s)
	}
	sort.Slice(dictInts, func(i, j int) bool { return dictInts[i] < dictInts[j] })
	sort.Strings(dictStrs)
}

var cborEdges = []uint64{0, 1, 22, 23, 24, 25, 26, 27, 28, 127, 128, 254, 255, 256, 257, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537,
	999999, 1000000, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}

// u64 draws from the whole range with weight on the interesting places.
func u64(r *rand.Rand) uint64 {
	switch r.IntN(8) {
	case 0:
		return cborEdges[r.IntN(len(cborEdges))]
	case 1:
		k := r.IntN(65)
		v := uint64(0)
		if k < 64 {
			v = 1 << k
		}
		return v + uint64(r.IntN(5)) - 2
	case 2:
		if len(dictInts) > 0 {
			return dictInts[r.IntN(len(dictInts))]
		}
		return r.Uint64()
	case 3:
		return uint64(r.IntN(300))
	case 4: // runs of equal 7-bit groups
		v := uint64(0)
		g := uint64(r.IntN(128))
		for i := r.IntN(10); i >= 0; i-- {
			v = v<<7 | g
			if r.IntN(4) == 0 {
				g = uint64([]int{0, 1, 0x7f, 0x40}[r.IntN(4)])
			}
		}
		return v
	default:
		return r.Uint64() >> uint(r.IntN(64))
	}
}

// lovelace draws amounts up to 2^61 so that sums stay exact in 64 bits.
func lovelace(r *rand.Rand) uint64 {
	v := u64(r)
	if bits.Len64(v) > 61 {
		v >>= uint(bits.Len64(v) - 61 + r.IntN(30))
	}
	return v
}

func u32(r *rand.Rand) uint32 {
	if r.IntN(3) == 0 {
		return uint32(u64(r)) // truncation spreads over the range
	}
	for {
		if v := u64(r); v <= math.MaxUint32 {
			return uint32(v)
		}
	}
}

func u16(r *rand.Rand) uint16 {
	if r.IntN(2) == 0 {
		return uint16(r.Uint32())
	}
	for {
		if v := u64(r); v <= math.MaxUint16 {
			return uint16(v)
		}
	}
}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.Uint64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// hbytes returns n bytes with structure: random, constant, sparse, runs, counters.
func hbytes(r *rand.Rand, n int) []byte {
	b := rbytes(r, n)
	if n == 0 {
		return b
	}
	switch r.IntN(9) {
	case 0:
		v := []byte{0, 0xff, 0x80, 0x7f, 1}[r.IntN(5)]
		for i := range b {
			b[i] = v
		}
		if r.IntN(2) == 0 {
			b[r.IntN(n)] = byte(r.Uint32())
		}
	case 1:
		k := r.IntN(n + 1)
		for i := 0; i < k; i++ {
			b[i] = 0
		}
	case 2:
		k := r.IntN(n + 1)
		for i := k; i < n; i++ {
			b[i] = 0
		}
	case 3:
		lo := r.IntN(n)
		hi := lo + r.IntN(n-lo) + 1
		for i := lo; i < hi; i++ {
			b[i] = 0xff
		}
	case 4:
		for i := range b {
			b[i] = byte(i)
		}
	case 5:
		for i := range b {
			if r.IntN(4) != 0 {
				b[i] = 0
			}
		}
	}
	return b
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// dictLen draws a length of at most max: a literal of the sources or near one, or any.
func dictLen(r *rand.Rand, max int) int {
	for i := 0; i < 20 && len(dictInts) > 0; i++ {
		if v := dictInts[r.IntN(len(dictInts))]; v <= uint64(max) {
			k := pick(r, 1, 1, 1, 2, 3, 4)
			if int(v)*k <= max {
				return int(v) * k
			}
		}
	}
	return r.IntN(max + 1)
}

func dictStr(r *rand.Rand) string {
	if len(dictStrs) == 0 {
		return ""
	}
	return dictStrs[r.IntN(len(dictStrs))]
}
