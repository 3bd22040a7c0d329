package harness

import (
	"math"
	mbits "math/bits"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Small drawing helpers.

// bits draws k uniformly distributed bits. (The integer generators of rapid favour
// small values so strongly that choices made with them would nearly always be the
// first one.)
func bits(t *rapid.T, k int) int {
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if coin.Draw(t, "b") {
			v |= 1
		}
	}
	return v
}

var coin = rapid.Bool()

// intn draws 0..n-1, nearly uniformly; shrinks to 0.
func intn(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	k := mbits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		k += 3
	}
	return bits(t, k) * n >> k
}

func between(t *rapid.T, a, b int) int { return a + intn(t, b-a+1) }

// chance is true in about p% of the draws; shrinks to false.
func chance(t *rapid.T, p int) bool {
	k := 6
	if p < 10 {
		k = 9
	}
	return bits(t, k)*100 >= (100-p)<<k && p > 0
}

func pick[T any](t *rapid.T, l []T) T { return l[intn(t, len(l))] }

// weighted draws an index according to weights; shrinks to the first.
func weighted(t *rapid.T, w []int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	if sum == 0 {
		return 0
	}
	n := intn(t, sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

// --- values -------------------------------------------------------------------

var intKinds = []string{"int", "int8", "int16", "int32", "int64"}
var uintKinds = []string{"uint", "uint8", "uint16", "uint32", "uint64"}

var anyStrings = []string{"", "a", "x", "0", "1", "true", "héé", "a b", "日本", "<b>", "{{a}}", "&&a&&", "none", "nil", "<nil>", " ", "array", "first",
	"false", "False", "no", "off", "null", "undefined", "NaN", "-1", "00", "0.0", "1e3", "0x10", "2020-01-01", "value", "id", "name", "\n", "a\r\nb"}

func genString(t *rapid.T) string {
	if chance(t, 20) {
		return rapid.String().Draw(t, "s")
	}
	if chance(t, 1) {
		return strings.Repeat(pick(t, []string{"x", "é", " ", "a b"}), orSize(t, 70, between(t, 2, 300), 3000))
	}
	return orWord(t, 5, pick(t, anyStrings), nil)
}

func genInt(t *rapid.T, bits int) int64 {
	lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	if n := int64(orSize(t, 4, -1, int(hi)-2)); n >= 0 {
		return n
	}
	switch intn(t, 4) {
	case 0:
		return int64(intn(t, 3)) - 1
	case 1:
		return pick(t, []int64{lo, hi, lo + 1, hi - 1})
	}
	return rapid.Int64Range(lo, hi).Draw(t, "i")
}

func genUint(t *rapid.T, bits int) uint64 {
	hi := uint64(math.MaxUint64) >> (64 - bits)
	if bits == 64 {
		hi = math.MaxInt64 // beyond: not representable as int, see DESIGN
	}
	switch intn(t, 4) {
	case 0:
		return uint64(intn(t, 3))
	case 1:
		return pick(t, []uint64{hi, hi - 1, hi/2 + 1, hi / 2})
	}
	return rapid.Uint64Range(0, hi).Draw(t, "u")
}

func genFloat(t *rapid.T) float64 {
	switch intn(t, 4) {
	case 0:
		return pick(t, []float64{0, 1, -1, 0.5, -0.5, 0.999, -0.999, 1.5, -1.5, 2.9999, 1e-300, -1e-300, math.SmallestNonzeroFloat64, math.Copysign(0, -1)})
	case 1:
		return pick(t, []float64{1 << 52, -(1 << 52), 1<<53 + 2, 1e15, -1e15, 1e17, 1 << 62, -(1 << 62), 1 << 63, -(1 << 63), 1e19, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1)})
	}
	return rapid.Float64Range(-1e9, 1e9).Draw(t, "f")
}

func genTime(t *rapid.T) int64 {
	switch intn(t, 4) {
	case 0:
		return math.MinInt64 // zero time
	case 1:
		return pick(t, []int64{0, 1, -1, 1e9, -1e9, 4e9})
	}
	return rapid.Int64Range(-1e10, 1e10).Draw(t, "t")
}

var scalarKinds = []string{"string", "nil", "int", "bool", "float64", "time", "stringer", "strings",
	"int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32",
	"bools", "ints", "floats", "times"}

// moreKinds adds values the library knows nothing about.
var moreKinds = append(append([]string{}, scalarKinds...), "bytes", "struct", "map", "error", "complex", "array")

// genScalar draws a scalar (or plain slice) value.
func genScalar(t *rapid.T, kinds []string) Val {
	k := pick(t, kinds)
	v := Val{K: k}
	switch k {
	case "bool":
		v.B = rapid.Bool().Draw(t, "b")
	case "int", "int64":
		v.I = genInt(t, 64)
	case "int8", "int16", "int32":
		n, _ := strconv.Atoi(k[3:])
		v.I = genInt(t, n)
	case "uint", "uint64":
		v.U = genUint(t, 64)
	case "uint8", "uint16", "uint32":
		n, _ := strconv.Atoi(k[4:])
		v.U = genUint(t, n)
	case "float64":
		v = floatVal(k, genFloat(t))
	case "float32":
		v = floatVal(k, float64(float32(genFloat(t))))
	case "string", "stringer", "bytes", "error":
		v.S = S(genString(t))
	case "complex", "array":
		v.I = int64(intn(t, 3))
	case "struct", "map":
		v.S, v.I = S(genString(t)), int64(intn(t, 3))
	case "time":
		v.I = genTime(t)
		if v.I != math.MinInt64 && chance(t, 30) {
			v.U = uint64(pick(t, []int{1, 2, 3, 500000000, 500000001, 999999998, 999999999}))
		}
	case "strings":
		for i, n := 0, intn(t, 4); i < n; i++ {
			v.SS = append(v.SS, S(genString(t)))
		}
	case "bools", "ints", "floats", "times":
		for i, n := 0, intn(t, 4); i < n; i++ {
			v.IS = append(v.IS, int64(between(t, -3, 3)))
		}
	}
	return v
}

// valCfg steers genVal.
type valCfg struct {
	keys    []string
	scalars []string
	ts      int  // percentage of thread safe members
	zero    bool // also zero value thread safe data sets
	user    int  // percentage of members of a type of the user
	wide    int  // percentage of members much larger than maxLen or maxKeys
	maxLen  int
	maxKeys int
}

func (c *valCfg) narrow() *valCfg {
	n := *c
	n.wide = 0
	return &n
}

// longKey is an unusually long name.
var longKey = strings.Repeat("long-key_0.", 30)

// wideKey names the keys of the large data sets.
func wideKey(i int) string { return "k" + strconv.Itoa(i) }

func genKind(t *rapid.T, c *valCfg) string {
	if c.user > 0 && chance(t, c.user) {
		return "u"
	}
	if c.ts > 0 && chance(t, c.ts) {
		if c.zero && chance(t, 30) {
			return "z"
		}
		return "t"
	}
	return ""
}

func genVal(t *rapid.T, c *valCfg, depth int) Val {
	if depth <= 0 {
		return genScalar(t, c.scalars)
	}
	switch weighted(t, []int{5, 3, 3}) {
	case 1:
		return genDSVal(t, c, depth-1)
	case 2:
		return genCollVal(t, c, depth-1)
	}
	return genScalar(t, c.scalars)
}

func genDSVal(t *rapid.T, c *valCfg, depth int) Val {
	v := Val{K: "ds", Kind: genKind(t, c)}
	n := intn(t, c.maxKeys+1)
	wide := c.wide > 0 && chance(t, c.wide)
	if wide {
		c = c.narrow()
		k := between(t, 8, 70)
		if chance(t, 6) {
			k = between(t, 100, 600)
		}
		k = orSize(t, 10, k, 600)
		for i := 0; i < k; i++ {
			v.M = append(v.M, KV{S(wideKey(i)), Val{K: "int", I: int64(i)}})
		}
	}
	for i := 0; i < n; i++ {
		k := S(orWord(t, 2, pick(t, c.keys), noStep))
		if wide && chance(t, 30) {
			k = S(wideKey(intn(t, 64)))
		}
		v.M = append(v.M, KV{k, genVal(t, c, depth)})
	}
	return v
}

// genLangVal makes what a data set may hold under "#": most often a language table.
func genLangVal(t *rapid.T) Val {
	switch intn(t, 8) {
	case 0:
		return Val{K: "nil"}
	case 1:
		return Val{K: "string", S: "text"}
	}
	v := Val{K: "lang"}
	for _, e := range genLangTable(t) {
		v.M = append(v.M, KV{e.K, Val{K: "string", S: e.V}})
	}
	return v
}

func genCollVal(t *rapid.T, c *valCfg, depth int) Val {
	v := Val{K: "coll", Kind: genKind(t, c)}
	n := intn(t, c.maxLen+1)
	if c.wide > 0 && chance(t, c.wide) {
		c = c.narrow()
		k := between(t, 6, 50)
		if chance(t, 6) {
			k = between(t, 60, 300)
		}
		k = orSize(t, 10, k, 300)
		for i := 0; i < k; i++ {
			e := Val{K: "ds"}
			if bits(t, 1) == 1 {
				e.M = []KV{{S(c.keys[i%len(c.keys)]), Val{K: "int", I: int64(i)}}}
			}
			v.L = append(v.L, e)
		}
	}
	for i := 0; i < n; i++ {
		v.L = append(v.L, genDSVal(t, c, depth))
	}
	return v
}

// --- templates ----------------------------------------------------------------

var letters = []string{"a", "b", "c", "d", "e", "f"}

// tmplNames are the names of sub-templates: some are also names of fields. A body
// refers only to names ranked after its own, so that no reference is recursive.
var tmplNames = append([]string{"a", "b", "c", "d", "e", "f", "m", "n", "o", "p", "q", "r", "s", "t", "u", "m_1", "n-x", "q9z", "c0"}, dictNames...)

// oddNames are other names of fields.
var oddNames = []string{"a_b", "a-b", "a.b", "X", "x9", "9", "_", "-", "Ab0", ".a", "zz-top_1.x", "a_long_name_with-many.characters0123456789", longKey, "x=y", "a|b", "=", "a=", "|",
	"value", "name", "id", "key", "data", "type", "text", "count", "default", "first", "last", "even", "none"}

func rank(name string) int { return int(name[0] - 'a') }

// sameRank gives the names with a rank.
func sameRank(r int) (l []string) {
	for _, n := range tmplNames {
		if rank(n) == r {
			l = append(l, n)
		}
	}
	return l
}

// tmplCfg steers the template generator.
type tmplCfg struct {
	// weights: text, noise, field, ref, ref-level, ref-indirect, loop, cond, lang, comment, dump, nested declaration
	w       [12]int
	depth   int
	parts   int
	breaks  bool     // any line break style
	values  []string // string forms occurring in the data, for value variants
	decl    int      // sub-templates per level
	variant int      // percentage of variant declarations added to a declaration
}

var plainText = []string{"<", ">", "(", ")", "-", " ", "x", "A", "1", "é", "\n", ";", "\"", "_t_", "txt"}

var noiseText = []string{"{{", "}}", "{", "}", "&&", "&", "@@", "@", "??", "?", "!!", "!", "##", "#", "%--", "--%", "%", "--", "[[", "]]", "[", "]",
	"{{a b}}", "{{}}", "&& a&&", "##é##", "[[A]]", "[[a b]]", "{{{a}}}", "{{a}", "{a}}", "%--%", "%-- x -%", "@@a@", "??a?", "!!x!!", "####", "&&&&",
	"\r", "\n", "\t", "\x00", "\xff", "日本", "a", ":", ">", "|", ".", "=", "\\", "$1", "%s", "%d",
	"{{x=y}}", "{{a:b}}", "{{a|b}}", "{{:}}", "{{=}}", "{{|}}", "{{>}}", "{{a>}}", "{{>a}}", "&&x=y&&", "&&x|y&&", "&&x>y&&", "@@x=y@@", "@@x|y@@", "??x=y??", "??x|y??", "!!x=y!!", "!!a:b!!", "##x-y_z.0##", "##a>b##", "##a=b##", "##a:b##"}

// endsText may be found where a file begins or ends.
var endsText = []string{"\x1a", "\x00", "\x04", "\x1b", " ", "\t", "\n", "\r\n", "\r", "\f", "\v", "\ufeff", "\u200b", "\u00a0", "\xff", "\n\n", " \n", "\n ", "\xef\xbb\xbf", "\xfe\xff", "#!"}

var breaksText = []string{"\n", "\r\n", "\r", "\n\n", "\r\n\r\n", " \n"}

type tmplGen struct {
	t   *rapid.T
	c   *tmplCfg
	v2  bool
	n   int // markers
	len int
	// paths existing in the data, by what they lead to
	dsPaths, collPaths, scalPaths []string
	values                        []string // string forms of the scalars of the data
}

// newTmplGen prepares a generator of templates suiting the data.
func newTmplGen(t *rapid.T, c *tmplCfg, v2 bool, data *Val) *tmplGen {
	g := &tmplGen{t: t, c: c, v2: v2}
	if data != nil {
		g.collect(data, "", 0)
	}
	return g
}

func (g *tmplGen) collect(v *Val, prefix string, depth int) {
	if depth > 2 {
		return
	}
	add := func(p string, x *Val) {
		switch x.K {
		case "ds":
			g.dsPaths = append(g.dsPaths, p)
			g.collect(x, p+">", depth+1)
		case "coll":
			g.collPaths = append(g.collPaths, p)
			g.collect(x, p+">", depth+1)
		default:
			g.scalPaths = append(g.scalPaths, p)
			if s := printed(x.Native()); len(s) < 8 && tmplNameable(s) {
				g.values = append(g.values, s)
			}
		}
	}
	last := map[S]int{}
	for i := range v.M {
		last[v.M[i].K] = i
	}
	for i := range v.M {
		if last[v.M[i].K] == i {
			add(prefix+string(v.M[i].K), &v.M[i].V)
		}
	}
	for i := range v.L {
		add(prefix+strconv.Itoa(i), &v.L[i])
	}
}

func tmplNameable(s string) bool {
	for i := 0; i < len(s); i++ {
		if !inSet(s[i], ".-_") {
			return false
		}
	}
	return s != ""
}

func (g *tmplGen) marker() string {
	g.n++
	return "<" + strconv.Itoa(g.n) + ">"
}

// path draws a path, often an existing one of the wanted sort. Inside changed levels
// any suffix of an existing path may be the right one.
func (g *tmplGen) path(want []string) string {
	if len(want) > 0 && chance(g.t, 70) {
		p := pick(g.t, want)
		for strings.Contains(p, ">") && chance(g.t, 25) {
			q := p[strings.Index(p, ">")+1:]
			if q == "" || q[0] < 'a' {
				break
			}
			p = q
		}
		return p
	}
	p := pick(g.t, letters)
	if chance(g.t, 10) {
		p = orTag(g.t, 40, pick(g.t, oddNames))
	}
	for i, n := 0, weighted(g.t, []int{6, 3, 2, 1}); i < n; i++ {
		switch intn(g.t, 5) {
		case 0, 1:
			p += ">" + strconv.Itoa(intn(g.t, 4))
		case 2, 3:
			p += ">" + pick(g.t, letters)
		default:
			p += ">" + pick(g.t, []string{"zz", "-1", "9", "x1", ""})
		}
	}
	return p
}

// later draws a template name ranked after r, mostly a visible one, most often one of
// the own declarations of the body (the last ones of env).
func (g *tmplGen) later(r int, env []string) string {
	var l []string
	for _, n := range env {
		if rank(n) > r {
			l = append(l, n)
		}
	}
	if len(l) > 0 && chance(g.t, 92) {
		return pick(g.t, l)
	}
	l = nil
	for _, n := range tmplNames {
		if rank(n) > r {
			l = append(l, n)
		}
	}
	if len(l) > 0 && chance(g.t, 80) {
		return pick(g.t, l)
	}
	return "zz"
}

// base draws a name like later, mostly without variant.
func (g *tmplGen) base(r int, env []string) string {
	n := g.later(r, env)
	if chance(g.t, 95) {
		n, _, _ = strings.Cut(n, ".")
	}
	return n
}

func (g *tmplGen) br() string {
	if !g.c.breaks {
		return pick(g.t, []string{"", "", "\n"})
	}
	if chance(g.t, 50) {
		return pick(g.t, breaksText)
	}
	return ""
}

// decl is a planned declaration.
type decl struct {
	id    string
	rank  int
	names []string // usable names it makes visible
}

func (g *tmplGen) plan(r int) []decl {
	var out []decl
	for i, n := 0, intn(g.t, g.c.decl+1); i < n; i++ {
		name := pick(g.t, tmplNames)
		if own := sameRank(r); len(own) > 0 && chance(g.t, 6) {
			name = pick(g.t, own) // within one of the same name
		} else if chance(g.t, 85) {
			var l []string
			for _, x := range tmplNames {
				if rank(x) > r {
					l = append(l, x)
				}
			}
			if len(l) > 0 {
				name = l[intn(g.t, (len(l)+1)/2+1)%len(l)]
			}
		}
		d := decl{id: name, rank: rank(name), names: []string{name}}
		if chance(g.t, 12) {
			other := pick(g.t, tmplNames)
			d = decl{name + "|" + other, max(rank(name), rank(other)), []string{name, other}}
			if chance(g.t, 30) {
				d.id += pick(g.t, []string{"|", "|" + name + ".first", "|" + name + ".none"})
			}
			switch intn(g.t, 12) {
			case 0:
				d.id = "|" + d.id
			case 1: // a single id, the other one left empty
				d = decl{"|" + name, rank(name), []string{name}}
			case 2:
				d = decl{name + "|", rank(name), []string{name}}
			case 3:
				d.id = strings.Replace(d.id, "|", "||", 1)
			}
		}
		out = append(out, d)
		if g.c.w[6] > 0 && chance(g.t, 80) {
			out = append(out, decl{name + ".none", rank(name), []string{name + ".none"}})
		}
		for k := 0; k < 5 && chance(g.t, g.c.variant); k++ {
			id := name + "." + pick(g.t, g.suffixes())
			out = append(out, decl{id, rank(name), []string{id}})
		}
	}
	return out
}

// body draws the content of a template named with rank r; env holds the names visible
// from outside.
func (g *tmplGen) body(r, depth int, env []string) string {
	var b strings.Builder
	bare := chance(g.t, 20) // no marker: the body may render as nothing
	if !bare {
		b.WriteString(g.marker())
	}
	var decls []decl
	if depth > 0 && g.len < 100 {
		decls = g.plan(r)
	}
	if !g.v2 {
		env = nil
	}
	env = append([]string{}, env...)
	var same []string // own declarations of the same rank
	for _, d := range decls {
		env = append(env, d.names...)
		for _, n := range d.names {
			if d.rank == r && rank(n) == r {
				same = append(same, n)
			}
		}
	}
	later := func() string {
		if len(same) > 0 && chance(g.t, 40) {
			return pick(g.t, same)
		}
		return g.later(r, env)
	}
	declare := func() {
		d := decls[0]
		decls = decls[1:]
		b.WriteString("[[" + d.id + "]]" + g.br())
		b.WriteString(g.body(d.rank, depth-1, env))
		b.WriteString("[[]]" + g.br())
	}
	useful := false // is there anything to refer to
	for _, x := range env {
		useful = useful || rank(x) > r || len(same) > 0
	}
	n := 1 + intn(g.t, g.c.parts)
	if bare && r >= 0 {
		n = intn(g.t, 3)
	}
	if len(decls) > 0 {
		n += 1 + intn(g.t, 3)
	}
	for i := 0; i < n && g.len < 200; i++ {
		g.len++
		if len(decls) > 0 && chance(g.t, 25) {
			declare()
		}
		kind := weighted(g.t, g.c.w[:])
		if !useful && kind >= 3 && kind <= 7 && !chance(g.t, 10) {
			kind = 2
		}
		switch kind {
		case 0:
			b.WriteString(pick(g.t, plainText))
			if chance(g.t, 1) && g.n < 1000 {
				b.WriteString(strings.Repeat(pick(g.t, plainText), pick(g.t, []int{100, 1000, 4096, 20000})))
			}
		case 1:
			for k := 1 + intn(g.t, 4); k > 0; k-- {
				b.WriteString(orWord(g.t, 4, pick(g.t, noiseText), nil))
			}
		case 2:
			if chance(g.t, 8) {
				b.WriteString("{{.counter}}")
			} else {
				b.WriteString("{{" + g.path(g.scalPaths) + "}}")
			}
		case 3:
			b.WriteString("&&" + later() + "&&")
		case 4:
			b.WriteString("&&" + later() + ":" + g.path(g.dsPaths) + "&&")
		case 5:
			b.WriteString("&&:" + g.path(g.scalPaths) + ":" + g.base(r, env) + pick(g.t, []string{".", "", "."}) + "&&")
		case 6:
			if name := g.base(r, env); chance(g.t, 20) && rank(name) < 6 {
				b.WriteString("@@" + name + "@@")
			} else {
				b.WriteString("@@" + g.path(g.collPaths) + ":" + name + "@@")
			}
			b.WriteString(pick(g.t, []string{"", "{{.counter}}", "{{a}}"}))
		case 7:
			if name := g.base(r, env); chance(g.t, 20) {
				b.WriteString("??" + name + "??")
			} else {
				b.WriteString("??" + g.path(pick(g.t, [][]string{g.scalPaths, g.dsPaths, g.scalPaths, g.collPaths})) + ":" + name + "??")
			}
		case 8:
			b.WriteString("##" + orTag(g.t, 4, pick(g.t, langIDs)) + "##")
		case 9:
			b.WriteString("%--" + pick(g.t, []string{"", " c ", "{{a}}", "[[a]]", "[[]]", "&&b&&", "-", "\n", "--", "%", "é", " 50% ", "%-- ", "--", "\r\n#"}) + "--%" + g.br())
		case 10:
			b.WriteString("!!" + pick(g.t, []string{"dump", "list"}) + "!!")
		}
		if chance(g.t, 25) {
			b.WriteString(g.marker())
		}
	}
	for len(decls) > 0 {
		declare()
	}
	return b.String()
}

// balance repairs a source whose brackets do not match, mostly.
func balance(src string, v2 bool) string {
	for _, pre := range []string{"", "[[z]]", "[[z]][[z]]", "[[z]][[z]][[z]]"} {
		for _, post := range []string{"", "[[]]", "[[]][[]]", "[[]][[]][[]]", "[[]][[]][[]][[]]"} {
			if _, err, vague := parseModel(pre+src+post, v2); err == nil && !vague {
				return pre + src + post
			}
		}
	}
	return src
}

var langIDs = []string{"a", "b", "Hello", "x.y", "n-o_1", "zz", "a.b", "b.", ".a", "hello", "A", "x"}

func (g *tmplGen) suffixes() []string {
	l := []string{"none", "first", "last", "even", "key." + strconv.Itoa(intn(g.t, 4)), "none", "array"}
	l = append(l, g.c.values...)
	n := 3
	if g.c.values != nil {
		n = 12
	}
	for k := 0; k < n && len(g.values) > 0; k++ {
		l = append(l, pick(g.t, g.values))
	}
	return l
}
