// Command dict harvests the numeric constants of the Go sources under a
// directory, as a fuzzing dictionary: the generators put inputs on and next to
// them. Usage: dict ROOT SUBDIR... (each SUBDIR not recursive), JSON on stdout.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// names are the constants of the package being read, by name, and busy those
// whose value is being computed.
var (
	names map[string]ast.Expr
	busy  = map[string]bool{}
)

var mathNames = map[string]constant.Value{
	"MaxFloat64":             constant.MakeFloat64(math.MaxFloat64),
	"SmallestNonzeroFloat64": constant.MakeFloat64(math.SmallestNonzeroFloat64),
	"MaxFloat32":             constant.MakeFloat64(math.MaxFloat32),
	"SmallestNonzeroFloat32": constant.MakeFloat64(math.SmallestNonzeroFloat32),
	"MaxInt":                 constant.MakeInt64(math.MaxInt64),
	"MaxInt8":                constant.MakeInt64(math.MaxInt8),
	"MaxInt16":               constant.MakeInt64(math.MaxInt16),
	"MaxInt32":               constant.MakeInt64(math.MaxInt32),
	"MaxInt64":               constant.MakeInt64(math.MaxInt64),
	"MinInt":                 constant.MakeInt64(math.MinInt64),
	"MinInt8":                constant.MakeInt64(math.MinInt8),
	"MinInt16":               constant.MakeInt64(math.MinInt16),
	"MinInt32":               constant.MakeInt64(math.MinInt32),
	"MinInt64":               constant.MakeInt64(math.MinInt64),
	"MaxUint":                constant.MakeUint64(math.MaxUint64),
	"MaxUint8":               constant.MakeUint64(math.MaxUint8),
	"MaxUint16":              constant.MakeUint64(math.MaxUint16),
	"MaxUint32":              constant.MakeUint64(math.MaxUint32),
	"MaxUint64":              constant.MakeUint64(math.MaxUint64),
	"Pi":                     constant.MakeFloat64(math.Pi),
	"E":                      constant.MakeFloat64(math.E),
	"Ln2":                    constant.MakeFloat64(math.Ln2),
	"Log10E":                 constant.MakeFloat64(math.Log10E),
	"Log2E":                  constant.MakeFloat64(math.Log2E),
	"Ln10":                   constant.MakeFloat64(math.Ln10),
	"Sqrt2":                  constant.MakeFloat64(math.Sqrt2),
}

// collect notes the constants declared in a file, at any level.
func collect(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if g, ok := n.(*ast.GenDecl); ok && g.Tok == token.CONST {
			for _, s := range g.Specs {
				s, ok := s.(*ast.ValueSpec)
				if !ok || len(s.Names) != len(s.Values) {
					continue
				}
				for i, id := range s.Names {
					names[id.Name] = s.Values[i]
				}
			}
		}
		return true
	})
}

// eval computes a constant expression made of literals and named constants;
// nil when it is not one.
func eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT || e.Kind == token.FLOAT {
			v = constant.MakeFromLiteral(e.Value, e.Kind, 0)
		}
	case *ast.ParenExpr:
		v = eval(e.X)
	case *ast.Ident:
		if x, ok := names[e.Name]; ok && !busy[e.Name] {
			busy[e.Name] = true
			v = eval(x)
			delete(busy, e.Name)
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok && id.Name == "math" {
			v = mathNames[e.Sel.Name]
		}
	case *ast.UnaryExpr:
		if x := eval(e.X); x != nil && e.Op == token.SUB {
			v = constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.CallExpr: // a conversion
		if id, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 {
			switch id.Name {
			case "int", "uint", "int32", "uint32", "int64", "uint64", "uint16", "int16", "byte", "float64", "float32":
				v = eval(e.Args[0])
			}
		}
	case *ast.BinaryExpr:
		x, y := eval(e.X), eval(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(y)
			if !ok || s > 200 {
				return nil
			}
			v = constant.Shift(x, e.Op, uint(s))
		case token.QUO:
			if x.Kind() == constant.Int && y.Kind() == constant.Int {
				v = constant.BinaryOp(x, token.QUO_ASSIGN, y)
			} else {
				v = constant.BinaryOp(x, e.Op, y)
			}
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			v = constant.BinaryOp(x, e.Op, y)
		}
	}
	if v != nil && v.Kind() != constant.Int && v.Kind() != constant.Float {
		v = nil
	}
	return v
}

func main() {
	words := map[uint64]bool{}
	add := func(v constant.Value) {
		if v == nil {
			return
		}
		if v.Kind() == constant.Float {
			f, _ := constant.Float64Val(v)
			words[math.Float64bits(math.Abs(f))] = true
			return
		}
		if constant.Sign(v) < 0 {
			v = constant.UnaryOp(token.SUB, v, 0)
		}
		for constant.Sign(v) > 0 {
			lo, _ := constant.Uint64Val(constant.BinaryOp(v, token.AND, constant.MakeUint64(math.MaxUint64)))
			if lo != 0 {
				words[lo] = true
			}
			v = constant.Shift(v, token.SHR, 64)
		}
	}
	for _, d := range os.Args[2:] {
		files, _ := filepath.Glob(filepath.Join(os.Args[1], d, "*.go"))
		names = map[string]ast.Expr{}
		var parsed []*ast.File
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			collect(a)
			parsed = append(parsed, a)
		}
		for _, a := range parsed {
			ast.Inspect(a, func(n ast.Node) bool {
				if c, ok := n.(*ast.CompositeLit); ok && len(c.Elts) > 24 {
					return false // a table
				}
				if e, ok := n.(ast.Expr); ok {
					add(eval(e))
				}
				return true
			})
		}
	}
	out := []uint64{}
	for w := range words {
		out = append(out, w)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	b, err := json.Marshal(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Stdout.Write(append(b, '\n'))
}
