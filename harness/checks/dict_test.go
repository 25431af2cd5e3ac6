package checks

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// The dictionary of a fuzzer: the numbers and short strings that occur in the
// source of the code under test. Generators visit them (and their neighbours)
// as lengths, values, names and counts, those that are new since
// dict_base.json was written more often. It only decides which inputs are
// tried, never what is right.
//
// The dictionary tells how often each package uses each number and string, for
// which dict_base.json holds the state of the code the checks were written on.
type dictionary struct{ Nums, Strs map[string]map[string]int }

//go:embed dict_base.json
var dictBase []byte

var theDict = sync.OnceValue(func() (d struct {
	nums, freshNums []uint64
	strs, freshStrs []string
}) {
	var base dictionary
	if err := json.Unmarshal(dictBase, &base); err != nil {
		panic("harness: dict_base.json: " + err.Error())
	}
	found := readDict()
	for _, w := range words(found.Nums, base.Nums) {
		n, _ := strconv.ParseUint(w.s, 10, 64)
		d.nums = append(d.nums, n)
		if w.fresh && n >= 2 {
			d.freshNums = append(d.freshNums, n)
		}
	}
	for _, w := range words(found.Strs, base.Strs) {
		d.strs = append(d.strs, w.s)
		if w.fresh {
			d.freshStrs = append(d.freshStrs, w.s)
		}
	}
	return d
})

type word struct {
	s     string
	fresh bool
}

// words lists the words of all packages, and whether any of those uses it more
// often than before.
func words(found, base map[string]map[string]int) (all []word) {
	for pkg, m := range found {
		for s, n := range m {
			fresh := n > base[pkg][s]
			if i := slices.IndexFunc(all, func(w word) bool { return w.s == s }); i >= 0 {
				all[i].fresh = all[i].fresh || fresh
			} else {
				all = append(all, word{s, fresh})
			}
		}
	}
	slices.SortFunc(all, func(a, b word) int { return strings.Compare(a.s, b.s) })
	return all
}

// readDict collects the dictionary. What cannot be read or parsed is left out.
func readDict() dictionary {
	root := os.Getenv("VERIF_SOURCE")
	if root == "" {
		root = "/repo"
	}
	d := dictionary{map[string]map[string]int{}, map[string]map[string]int{}}
	pkgs := map[string][]*ast.File{}
	_ = filepath.WalkDir(root, func(path string, e fs.DirEntry, err error) error {
		switch {
		case err != nil:
			return nil
		case e.IsDir() && path != root && strings.HasPrefix(e.Name(), "."):
			return fs.SkipDir
		case e.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go"):
			return nil
		}
		if f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution); err == nil {
			pkgs[filepath.Dir(path)] = append(pkgs[filepath.Dir(path)], f)
		}
		return nil
	})
	for dir, files := range pkgs {
		nums, strs := map[string]int{}, map[string]int{}
		if rel, err := filepath.Rel(root, dir); err == nil {
			d.Nums[rel], d.Strs[rel] = nums, strs
		}
		consts := map[string]ast.Expr{}
		for _, f := range files {
			for _, decl := range f.Decls {
				if g, ok := decl.(*ast.GenDecl); ok && g.Tok == token.CONST {
					for _, spec := range g.Specs {
						v := spec.(*ast.ValueSpec)
						for i := range min(len(v.Names), len(v.Values)) {
							consts[v.Names[i].Name] = v.Values[i]
						}
					}
				}
			}
		}
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec, *ast.StructType:
					return false
				case ast.Expr:
					v := evalConst(n, consts, 0)
					if v == nil {
						return true
					}
					switch v.Kind() {
					case constant.Int:
						if u, ok := constant.Uint64Val(v); ok {
							nums[fmt.Sprint(u)]++
						} else if i, ok := constant.Int64Val(v); ok {
							nums[fmt.Sprint(uint64(i))]++
							nums[fmt.Sprint(uint64(-i))]++
						}
					case constant.String:
						if s := constant.StringVal(v); len(s) > 0 && len(s) <= 40 {
							strs[s]++
						}
					}
					return false
				}
				return true
			})
		}
	}
	return d
}

// evalConst returns the value of a constant integer or string expression.
func evalConst(e ast.Expr, consts map[string]ast.Expr, depth int) (v constant.Value) {
	defer func() {
		if recover() != nil { // such as a division by zero
			v = nil
		}
	}()
	if depth > 20 {
		return nil
	}
	eval := func(e ast.Expr) constant.Value { return evalConst(e, consts, depth+1) }
	switch e := e.(type) {
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT, token.STRING:
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		case token.CHAR:
			return constant.ToInt(constant.MakeFromLiteral(e.Value, e.Kind, 0))
		}
	case *ast.Ident:
		if c, ok := consts[e.Name]; ok {
			return eval(c)
		}
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && x.Name == "math" {
			switch e.Sel.Name {
			case "MaxUint8":
				return constant.MakeUint64(math.MaxUint8)
			case "MaxInt16":
				return constant.MakeUint64(math.MaxInt16)
			case "MaxUint16":
				return constant.MakeUint64(math.MaxUint16)
			case "MaxInt32":
				return constant.MakeUint64(math.MaxInt32)
			case "MaxUint32":
				return constant.MakeUint64(math.MaxUint32)
			case "MaxInt64", "MaxInt":
				return constant.MakeUint64(math.MaxInt64)
			case "MaxUint64":
				return constant.MakeUint64(math.MaxUint64)
			}
		}
	case *ast.ParenExpr:
		return eval(e.X)
	case *ast.UnaryExpr:
		if x := eval(e.X); x != nil && x.Kind() == constant.Int && (e.Op == token.SUB || e.Op == token.ADD) {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.CallExpr: // a conversion
		if f, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 {
			switch f.Name {
			case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "byte", "string":
				return eval(e.Args[0])
			}
		}
	case *ast.BinaryExpr:
		x, y := eval(e.X), eval(e.Y)
		if x == nil || y == nil || x.Kind() != y.Kind() {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 64 {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD:
			return constant.BinaryOp(x, e.Op, y)
		case token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.Kind() == constant.Int {
				return constant.BinaryOp(x, e.Op, y)
			}
		case token.QUO:
			if x.Kind() == constant.Int {
				return constant.BinaryOp(x, token.QUO_ASSIGN, y)
			}
		}
	}
	return nil
}

// within returns the numbers of a sorted or unsorted list that lie in [lo, hi].
func within(nums []uint64, lo, hi uint64) (in []uint64) {
	for _, n := range nums {
		if n >= lo && n <= hi {
			in = append(in, n)
		}
	}
	return in
}

// dictNum makes a number of the dictionary, or a neighbour of it, in [lo, hi];
// ok tells whether to use it, which is seldom unless there are new numbers.
func dictNum(t *rapid.T, label string, lo, hi uint64) (n uint64, ok bool) {
	d := theDict()
	in, share := within(d.freshNums, lo, hi), 12
	if len(in) == 0 {
		in, share = within(d.nums, lo, hi), 3
	}
	if len(in) == 0 || !chance(t, label+"/dict", share) {
		return 0, false
	}
	n = in[rapid.IntRange(0, len(in)-1).Draw(t, label+"/word")]
	switch rapid.IntRange(0, 5).Draw(t, label+"/off") {
	case 3:
		n++
	case 4:
		n--
	}
	return min(max(n, lo), hi), true
}

// counted tells whether the case being generated has a count of the dictionary
// already: several would multiply.
var counted bool

func init() { pbt.BeforeGen = func() { counted = false } }

// genCount makes a count in [lo, hi] or, once in a case and if there are new
// numbers, one of those up to most.
func genCount(t *rapid.T, label string, lo, hi, most int) int {
	if !counted && len(within(theDict().freshNums, uint64(lo), uint64(most))) > 0 {
		if n, ok := dictNum(t, label, uint64(lo), uint64(most)); ok {
			counted = counted || int(n) > hi
			return int(n)
		}
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// dictStr makes a string of the dictionary of at most max bytes.
func dictStr(t *rapid.T, label string, max int) (s string, ok bool) {
	d := theDict()
	in, share := d.freshStrs, 12
	if len(in) == 0 {
		in, share = d.strs, 2
	}
	if len(in) == 0 || !chance(t, label+"/dict", share) {
		return "", false
	}
	s = in[rapid.IntRange(0, len(in)-1).Draw(t, label+"/string")]
	return s, len(s) <= max
}
