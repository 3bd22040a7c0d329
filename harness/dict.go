package harness

import (
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// The dictionary: the literals in the source of the library, as fuzzers use them. Words
// and numbers that the code compares with are worth trying as keys, names, texts, values
// and sizes.

var dictWords, dictInts = loadDict(os.Getenv("VH_DICT"))

// names of the dictionary that can be those of sub-templates, and words that can stand in a tag
var dictNames, dictTags = func() (names, tags []string) {
	for _, w := range dictWords {
		if len(w) > 40 || w == ".counter" {
			continue
		}
		name, tag := true, true
		for i := 0; i < len(w); i++ {
			lower := w[i] >= 'a' && w[i] <= 'z'
			name = name && (lower || i > 0 && inSet(w[i], "-_") && (w[i] < 'A' || w[i] > 'Z'))
			tag = tag && inSet(w[i], ".-_=|")
		}
		if name && len(names) < 20 {
			names = append(names, w)
		}
		if tag && len(tags) < 40 {
			tags = append(tags, w)
		}
	}
	return names, tags
}()

func loadDict(dirs string) (words []string, ints []int) {
	seen, nums := map[string]bool{"": true}, map[int]bool{}
	for _, dir := range filepath.SplitList(dirs) {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			file, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
			if err != nil {
				continue
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if x.Tag != nil {
						return false
					}
				case *ast.BasicLit:
					if x.Kind == token.STRING || x.Kind == token.CHAR {
						if s, err := strconv.Unquote(x.Value); err == nil && len(s) <= 200 {
							seen[s] = true
							if len(s) <= 12 { // and the names in it
								for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r > 127 || !inSet(byte(r), "-_"+upper) }) {
									seen[w] = true
								}
							}
						}
					}
				}
				if e, ok := n.(ast.Expr); ok {
					if v, ok := constOf(e); ok && v >= 4 && v <= 1<<62 {
						nums[int(v)] = true
					}
				}
				return true
			})
		}
	}
	for s := range seen {
		if s != "" {
			words = append(words, s)
		}
	}
	for n := range nums {
		ints = append(ints, n)
	}
	sort.Strings(words)
	sort.Ints(ints)
	if len(words) > 400 {
		words = words[:400]
	}
	return words, ints
}

var timeUnits = map[string]float64{"Nanosecond": 1, "Microsecond": 1e3, "Millisecond": 1e6, "Second": 1e9, "Minute": 60e9, "Hour": 3600e9}

// constOf gives the value of an expression of literals and units of time.
func constOf(e ast.Expr) (float64, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT || x.Kind == token.FLOAT {
			if n, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
				return float64(n), true
			}
			f, err := strconv.ParseFloat(x.Value, 64)
			return f, err == nil
		}
	case *ast.ParenExpr:
		return constOf(x.X)
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok && p.Name == "time" {
			v, ok := timeUnits[x.Sel.Name]
			return v, ok
		}
	case *ast.BinaryExpr:
		a, ok1 := constOf(x.X)
		b, ok2 := constOf(x.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.QUO:
			return a / b, b != 0
		case token.SHL:
			return a * math.Pow(2, b), b < 64
		}
	}
	return 0, false
}

// orWord gives s or, in some per cent of the cases, a word of the dictionary that is right.
func orWord(t *rapid.T, pct int, s string, right func(string) bool) string {
	if len(dictWords) == 0 || !chance(t, pct) {
		return s
	}
	w := pick(t, dictWords)
	switch intn(t, 6) {
	case 0:
		w += pick(t, []string{"a", " ", "0", "x", w})
	case 1:
		w = pick(t, []string{"a", " ", "0", "x"}) + w
	}
	if right != nil && !right(w) {
		return s
	}
	return w
}

// noStep: the word can be a key of a data set.
func noStep(w string) bool { return !strings.Contains(w, ">") && w != ".counter" }

func oneLine(w string) bool { return !strings.ContainsAny(w, "\n") }

// xmlLegal tells whether an XML document can hold the text.
func xmlLegal(w string) bool { return xmlOnly(w) == w }

// orTag gives s or, in some per cent of the cases, a word of the dictionary that can stand
// in a tag.
func orTag(t *rapid.T, pct int, s string) string {
	if len(dictTags) == 0 || !chance(t, pct) {
		return s
	}
	return pick(t, dictTags)
}

// orSize gives n or, in some per cent of the cases, a size next to a number of the
// dictionary that is at most max.
func orSize(t *rapid.T, pct, n, max int) int {
	k := sort.SearchInts(dictInts, max+1)
	if k == 0 || !chance(t, pct) {
		return n
	}
	return dictInts[intn(t, k)] + between(t, -1, 2)
}
