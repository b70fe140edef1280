package mon

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Mined are constants found in the source of the code under test. They only steer the
// workloads (as a fuzzer's dictionary does); no verdict depends on them.
type Mined struct {
	Ints    []int
	Big     []int // sizes beyond 2 MiB
	Runes   []rune
	Strings []string
}

// Mine collects literals of the non-test Go source under root.
func Mine(root string) Mined {
	ints := map[int]bool{}
	big := map[int]bool{}
	runes := map[rune]bool{}
	strs := map[string]bool{}
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && path != root {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || info.Size() > 2<<20 {
			return nil
		}
		generated := strings.HasSuffix(path, "generated.go")
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if e, ok := n.(*ast.BinaryExpr); ok {
				if v, ok := fold(e); ok && v >= 0 {
					if v <= 1<<21 {
						ints[int(v)] = true
					} else if v <= 1<<26 {
						big[int(v)] = true
					}
				}
			}
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch b.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(strings.ReplaceAll(b.Value, "_", ""), 0, 64); err == nil {
					if v >= 0 && v <= 1<<21 {
						ints[int(v)] = true
					} else if v > 0 && v <= 1<<26 && !generated {
						big[int(v)] = true
					}
					if v > 0 && v <= 0x10ffff {
						if !(v >= 0xd800 && v < 0xe000) {
							if v > 0x20 {
								runes[rune(v)] = true
							}
						}
					}
				}
			case token.CHAR:
				if r, _, _, err := strconv.UnquoteChar(b.Value[1:len(b.Value)-1], '\''); err == nil {
					runes[r] = true
				}
			case token.STRING:
				if generated {
					return true
				}
				if s, err := strconv.Unquote(b.Value); err == nil && s != "" && len(s) < 400 {
					strs[s] = true
				}
			}
			return true
		})
		return nil
	})
	var m Mined
	for v := range ints {
		m.Ints = append(m.Ints, v)
	}
	for r := range runes {
		m.Runes = append(m.Runes, r)
	}
	for s := range strs {
		m.Strings = append(m.Strings, s)
	}
	for v := range big {
		m.Big = append(m.Big, v)
	}
	sort.Ints(m.Big)
	sort.Ints(m.Ints)
	sort.Slice(m.Runes, func(i, j int) bool { return m.Runes[i] < m.Runes[j] })
	sort.Strings(m.Strings)
	return m
}

// fold computes an expression of integer literals, as in 64 * 1024 or 1 << 16.
func fold(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			v, err := strconv.ParseInt(strings.ReplaceAll(e.Value, "_", ""), 0, 64)
			return v, err == nil
		}
	case *ast.BinaryExpr:
		x, ok1 := fold(e.X)
		y, ok2 := fold(e.Y)
		if !ok1 || !ok2 || x < 0 || y < 0 || x > 1<<31 || y > 1<<31 {
			return 0, false
		}
		switch e.Op {
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.MUL:
			return x * y, true
		case token.SHL:
			if y < 31 {
				return x << y, true
			}
		}
	}
	return 0, false
}
