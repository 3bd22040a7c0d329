package harness

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Large inputs: a few numbers describe them, and they are judged by the oracles of the
// ordinary parts.

// LargeCase describes a large input.
type LargeCase struct {
	Ver string `json:"ver"`
	S   int    `json:"s"`           // shape
	N   int    `json:"n"`           // how many, how long
	D   int    `json:"d"`           // how deep
	P   []int  `json:"p,omitempty"` // further choices, 0..15
}

// limits are those of the cases that an oracle looks at.
var limits = smallLimits

type limit struct{ depth, steps, out, size int }

var smallLimits = limit{30, 4000, 200000, 200}
var largeLimits = limit{200, 200000, 4000000, 100000}

var roundSizes = []int{10, 16, 20, 32, 50, 64, 100, 128, 200, 255, 256, 300, 400, 500, 512, 600, 1000, 1024, 1500, 2000, 2048, 2500, 3000, 4000, 4096, 5000}

// genLarge draws sizes up to max, often next to round ones, and depths up to deep.
func genLarge(max, deep int) func(t *rapid.T) *LargeCase {
	var sizes []int
	for _, n := range roundSizes {
		if n <= max {
			sizes = append(sizes, n)
		}
	}
	return func(t *rapid.T) *LargeCase {
		c := &LargeCase{Ver: genVer(t), S: intn(t, 8), D: between(t, 1, deep)}
		if chance(t, 60) {
			c.N = pick(t, sizes) + between(t, -1, 2)
		} else {
			e := between(t, 3, 12)
			c.N = 1<<e + bits(t, e)
		}
		c.N, c.D = orSize(t, 8, c.N, max), orSize(t, 8, c.D, deep)
		if c.N > max {
			c.N = max
		}
		if c.D > deep {
			c.D = deep
		}
		for i := 0; i < 6; i++ {
			c.P = append(c.P, bits(t, 4))
		}
		return c
	}
}

func (c *LargeCase) ok(max, deep int) bool {
	if len(c.P) < 6 || c.N < 0 || c.N > max || c.D < 0 || c.D > deep || c.S < 0 || c.Ver != "v1" && c.Ver != "v2" {
		return false
	}
	for _, p := range c.P {
		if p < 0 || p > 15 {
			return false
		}
	}
	return true
}

// large registers a part whose cases are expanded to those of an ordinary part.
func large[C any](prop string, quick, max, deep int, expand func(c *LargeCase) *C, run func(r *R, c *C) error) {
	Add(Part{Prop: prop, Name: "large", Quick: quick, Rule: "more than 100 items, or more than 5 levels, and the rule of the ordinary part"},
		genLarge(max, deep),
		func(r *R, c *LargeCase) error {
			if !c.ok(max, deep) {
				return errDiscard
			}
			x := &R{}
			limits = largeLimits
			defer func() { limits = smallLimits }()
			err := run(x, expand(c))
			r.Label("%s shape %d", c.Ver, c.S)
			if c.N > 1000 {
				r.Label("more than 1000")
			}
			if x.nontrivial && (c.N > 100 || c.D > 5) {
				r.NonTrivial()
			}
			return err
		})
}

func str(s string) Val { return Val{K: "string", S: S(s)} }
func num64(i int) Val  { return Val{K: "int", I: int64(i)} }
func dsOf(m ...KV) Val { return Val{K: "ds", M: m} }

// kind draws the kind of the container of level i.
func (c *LargeCase) kind(i int) string {
	if c.Ver == "v2" && (c.P[5]+i)%3 == 0 {
		return "t"
	}
	return ""
}

// chain nests d levels around a leaf; it gives the path to the leaf as well.
func (c *LargeCase) chain(leaf Val, d int) (Val, []string) {
	v, path := leaf, []string{"x"}
	v = dsOf(KV{"x", leaf}, KV{"y", num64(-1)})
	v.Kind = c.kind(0)
	for i := 1; i < d; i++ {
		k := letters[(i+c.P[0])%6]
		if (i+c.P[1])%5 < c.P[2]%4 { // a collection in between
			l := Val{K: "coll", Kind: c.kind(i + 1)}
			for j := 0; j <= c.P[3]%3; j++ {
				if j == c.P[4]%(c.P[3]%3+1) {
					path = append([]string{strconv.Itoa(j)}, path...)
					l.L = append(l.L, v)
				} else {
					l.L = append(l.L, dsOf(KV{"x", num64(j)}))
				}
			}
			v = l
		}
		v = dsOf(KV{S(k), v}, KV{"n", num64(i)}, KV{"x", num64(-i)})
		v.Kind = c.kind(i)
		path = append([]string{k}, path...)
	}
	return v, path
}

// records gives n records; every seventh one has something special.
func (c *LargeCase) records(n int) Val {
	l := Val{K: "coll", Kind: c.kind(0)}
	for i := 0; i < n; i++ {
		d := dsOf(KV{"a", num64(i)})
		if i%7 == c.P[0]%7 {
			d.M = append(d.M, KV{"b", str("b" + strconv.Itoa(i))})
			d.Kind = c.kind(i)
		}
		l.L = append(l.L, d)
	}
	return l
}

// value makes a large value of some shape: wide, long, deep or a tree.
func (c *LargeCase) value() Val {
	switch c.S % 4 {
	case 0:
		d := Val{K: "ds", Kind: c.kind(0)}
		for i := 0; i < c.N; i++ {
			d.M = append(d.M, KV{S(wideKey(i)), num64(i)})
		}
		return d
	case 1:
		return dsOf(KV{"l", c.records(c.N)}, KV{"a", num64(1)})
	case 2:
		v, _ := c.chain(str("leaf"), c.D)
		return v
	}
	n := 0
	var tree func(d int) Val
	tree = func(d int) Val {
		n++
		v := Val{K: "ds", Kind: c.kind(n), M: []KV{{"n", num64(n)}}}
		for i := 0; d > 0 && i < 2+c.P[0]%3 && n < c.N; i++ {
			k := S(letters[i])
			if (i+d)%2 == 0 {
				v.M = append(v.M, KV{k, tree(d - 1)})
			} else {
				v.M = append(v.M, KV{k, Val{K: "coll", Kind: c.kind(n + 1), L: []Val{tree(d - 1), dsOf()}}})
			}
		}
		return v
	}
	return tree(4 + c.D%6)
}

// --- templates

func always(map[string]int, string) bool { return true }

func (c *LargeCase) text() string {
	units := append(append(append([]string{}, plainText...), noiseText...), "%-- c --%", "{{a}}", "{{zz}}", "##a##", "\r\n", "0123456789abcdef")
	var b strings.Builder
	n := c.N
	for i := 0; i < 5; i++ {
		k := n
		switch (c.S + i) % 4 {
		case 1:
			k = n / 3
		case 2:
			k = 1
		case 3:
			k = n * 13
		}
		u := units[(c.P[i]*16+c.P[i+1])%len(units)]
		if len(u)*k > 400000 {
			k = 400000 / len(u)
		}
		b.WriteString(strings.Repeat(u, k))
	}
	return b.String()
}

func largeText(c *LargeCase) *TmplCase {
	d := dsOf(KV{"a", str("v")})
	return &TmplCase{Ver: c.Ver, Src: S(balance(c.text(), c.Ver == "v2")), Data: &d, Lang: []KVs{{"a", "l"}}}
}

// largeFields reads deep paths, from the root or from levels entered before.
func largeFields(c *LargeCase) *TmplCase {
	v, path := c.chain(str("leaf"), c.D)
	field := func(p []string) string { return "<{{" + strings.Join(p, ">") + "}}>" }
	var b strings.Builder
	for i := 0; i <= len(path); i += 1 + c.P[1]%4 {
		b.WriteString(field(path[:i]))
		if i < len(path) {
			b.WriteString(field(append(append([]string{}, path[:i]...), "x")))
		}
	}
	b.WriteString(field(path) + field(append(append([]string{}, path...), "x")))
	half := len(path) / 2
	b.WriteString("&&t:" + strings.Join(path[:half], ">") + "&&[[t]]" + field(path[half:]) + field(path) + "{{n}}{{x}}[[]]")
	// a stack of levels, one on the other
	steps := path[:len(path)-1]
	open, end := "", ""
	for i, s := range steps {
		if s[0] <= '9' || i+1 < len(steps) && steps[i+1][0] <= '9' {
			break
		}
		if i > 60 {
			break
		}
		open += "&&s" + strconv.Itoa(i) + ":" + s + "&&[[s" + strconv.Itoa(i) + "]]({{n}}" + field(path[i+1:])
		end += "{{n}})[[]]"
	}
	b.WriteString(open + "{{x}}" + end)
	return &TmplCase{Ver: c.Ver, Src: S(b.String()), Data: &v}
}

func largeLoop(c *LargeCase) *TmplCase {
	var b strings.Builder
	n := c.N
	d := dsOf()
	inner := ""
	if c.S%4 == 3 { // a loop in a loop
		n = c.N%60 + 1
		d.M = append(d.M, KV{"m", c.records(1 + c.P[1]*4)})
		inner = "@@m:y@@[[y]]<{{.counter}}{{a}}>[[]][[y.none]]-[[]]"
	}
	d.M = append(d.M, KV{"l", c.records(n)})
	b.WriteString("(@@l:x@@)")
	for i, suf := range []string{"", ".none", ".first", ".last", ".even", ".key." + strconv.Itoa(n-1), ".key." + strconv.Itoa(n), ".key." + strconv.Itoa(n/2), ".key.1000", ".key.999"} {
		if i > 1 && c.P[i%6]>>(i%4)&1 == 0 {
			continue
		}
		in := inner
		if i > 0 && c.Ver == "v1" {
			in = ""
		}
		b.WriteString("[[x" + suf + "]]" + suf + "{{.counter}}:{{a}}{{b}};" + in + "[[]]")
	}
	b.WriteString("{{.counter}}{{a}}")
	return &TmplCase{Ver: c.Ver, Src: S(b.String()), Data: &d}
}

// largeChoice declares very many variants, or very long values.
func largeChoice(c *LargeCase) (vals []string, variants []string) {
	for i := 0; i < c.N; i++ {
		variants = append(variants, strconv.Itoa(i*(1+c.P[0])))
	}
	vals = []string{strconv.Itoa((c.N - 1) * (1 + c.P[0])), strconv.Itoa(c.N * (1 + c.P[0])), "0"}
	long := strings.Repeat("a", c.N)
	if c.S%2 == 0 {
		variants = []string{long, long + "a", "a"}
		vals = []string{long, long + "b", long[:c.N/2], long + "a"}
	}
	return
}

func largeConds(c *LargeCase) *TmplCase {
	vals, variants := largeChoice(c)
	d := dsOf()
	var b strings.Builder
	for i, v := range vals {
		d.M = append(d.M, KV{S(letters[i]), str(v)})
		b.WriteString("(??" + letters[i] + ":x??)")
	}
	// conditions in conditions
	open, end := "", ""
	if c.Ver == "v2" {
		for i := 0; i < c.D; i++ {
			open += "??a:n" + strconv.Itoa(i) + "??[[n" + strconv.Itoa(i) + "]]{{a}}("
			end += ")[[]]"
		}
		if len(vals[0])*c.D > 100000 {
			open, end = "", ""
		}
	}
	b.WriteString("[[x]]base{{b}}[[]][[x.none]]none[[]]")
	for i, v := range variants {
		b.WriteString("[[x." + v + "]]" + strconv.Itoa(i) + ";[[]]")
	}
	b.WriteString("??zz:x??" + open + end)
	return &TmplCase{Ver: c.Ver, Src: S(b.String()), Data: &d}
}

func largeRefs(c *LargeCase) *TmplCase {
	vals, variants := largeChoice(c)
	d := dsOf()
	var b strings.Builder
	for i, v := range vals {
		d.M = append(d.M, KV{S(letters[i]), str(v)})
		b.WriteString("(&&:" + letters[i] + ":x.&&)(&&x." + v + "&&)")
	}
	b.WriteString("[[x.]]base{{b}}[[]]")
	for i, v := range variants {
		b.WriteString("[[x." + v + "]]" + strconv.Itoa(i) + ";[[]]")
	}
	b.WriteString(strings.Repeat("&&s&&", c.N) + "[[s]]s[[]]")
	return &TmplCase{Ver: c.Ver, Src: S(b.String()), Data: &d}
}

// largeNest nests declarations; the inner ones use the outer ones.
func largeNest(c *LargeCase) *TmplCase {
	var b strings.Builder
	b.WriteString("[[o]]outermost[[]]")
	for i := 0; i < c.D; i++ {
		n := "t" + strconv.Itoa(i)
		b.WriteString("&&" + n + "&&&&o&&[[" + n + "]]<")
		if (i+c.P[0])%(2+c.P[1]) == 0 {
			b.WriteString("[[p" + strconv.Itoa(i%3) + "]]p of " + strconv.Itoa(i) + "[[]]")
		}
		b.WriteString("&&p0&&&&p1&&&&p2&&")
	}
	b.WriteString("{{a}}")
	for i := 0; i < c.D; i++ {
		b.WriteString("&&p0&&>[[]]")
	}
	// and many side by side
	for i := 0; i < c.N; i++ {
		b.WriteString("[[q" + strconv.Itoa(i) + "]]" + strconv.Itoa(i) + "[[]]")
	}
	fmt.Fprintf(&b, "&&q0&&&&q%d&&&&q%d&&&&q%d&&", c.N/2, c.N-1, c.N)
	d := dsOf(KV{"a", str("in")})
	return &TmplCase{Ver: c.Ver, Src: S(b.String()), Data: &d}
}

func largeLang(c *LargeCase) *TmplCase {
	var b strings.Builder
	var l []KVs
	for i := 0; i < c.N; i++ {
		l = append(l, KVs{S(wideKey(i)), S("v" + strconv.Itoa(i))})
		if c.S%2 == 0 || i%100 == 0 {
			b.WriteString("##" + wideKey(i) + "##")
		}
	}
	l = append(l, KVs{"long", S(strings.Repeat("0123456789", c.N))}, KVs{S(strings.Repeat("k", c.N+2)), "long key"})
	b.WriteString("##long####zz####" + strings.Repeat("k", c.N+2) + "##")
	d := dsOf()
	return &TmplCase{Ver: c.Ver, Src: S(b.String()), Data: &d, Lang: l}
}

func largeLoad(c *LargeCase) *LoadCase {
	d := dsOf(KV{"a", str("v")})
	x := &LoadCase{Ver: c.Ver, Data: &d, First: c.P[0] % 2}
	src := func(open, end int) S {
		var b strings.Builder
		for i := 0; i < open; i++ {
			b.WriteString("[[t" + strconv.Itoa(i) + "]]x{{a}}")
		}
		for i := 0; i < end; i++ {
			b.WriteString("y[[]]z")
		}
		return S(b.String())
	}
	side := strings.Repeat("[[s]]{{a}}[[]]", c.N)
	for i := 0; i < 3; i++ {
		n := c.D
		if i == 2 {
			n = c.N % 700
		}
		switch c.P[i+1] % 5 {
		case 0:
			x.Srcs = append(x.Srcs, src(n, n))
		case 1:
			x.Srcs = append(x.Srcs, src(n, n-1))
		case 2:
			x.Srcs = append(x.Srcs, src(n, n+1))
		case 3:
			x.Srcs = append(x.Srcs, S(side)+"&&s&&")
		case 4:
			x.Srcs = append(x.Srcs, S(side)+"&&s&&[[s]]")
		}
	}
	return x
}

func largePure(c *LargeCase) *PureCase {
	var t *TmplCase
	switch c.S % 5 {
	case 0:
		t = largeLoop(c)
	case 1:
		t = largeFields(c)
	case 2:
		t = largeConds(c)
	case 3:
		t = largeNest(c)
	case 4:
		t = largeLang(c)
	}
	x := &PureCase{Ver: c.Ver, Srcs: []S{t.Src, "!!dump!!"}, Data: []*Val{t.Data, nil}, Lang: t.Lang}
	for i := 0; i < 4; i++ {
		x.Ops = append(x.Ops, []int{c.P[i] % 3 / 2, c.P[i] % 4 / 3, i % 4})
	}
	return x
}

func largeTmplClone(c *LargeCase) *CloneCase {
	t := largeNest(c)
	x := &CloneCase{Src: t.Src, Data: []*Val{t.Data}}
	var path []string
	for i := 0; i < c.D; i++ {
		path = append(path, "t"+strconv.Itoa(i))
	}
	x.Ops = []CloneOp{{Op: "clone"}, {Op: "edit", Obj: c.P[0] % 2, Path: path}, {Op: "clone", Obj: 1},
		{Op: "add", Obj: c.P[1] % 3, Path: path[:len(path)/2], Name: "p" + strconv.Itoa(c.P[2]%3), Src: "added"},
		{Op: "edit", Obj: c.P[3] % 3, Path: []string{"q" + strconv.Itoa(c.N/2)}}}
	return x
}

func largePrintTmpl(c *LargeCase) *PrintTmplCase {
	t := largeText(c)
	if c.S%3 == 0 {
		t = largeNest(c)
	}
	x := &PrintTmplCase{Ver: c.Ver, Srcs: []S{t.Src}, Data: t.Data}
	for i := 0; i < 3; i++ {
		x.Ops = append(x.Ops, c.P[i]%6)
	}
	return x
}

// --- data sets

func (c *LargeCase) ops() (ops []DSOp) {
	v := func(x Val) *Val { return &x }
	_, path := c.chain(str("leaf"), c.D)
	for i := 0; i < 5; i++ {
		at := c.N * c.P[i] / 15
		switch (c.P[i] + i) % 8 {
		case 0:
			ops = append(ops, DSOp{Op: "set", K: S(wideKey(at)), V: v(str("new"))})
		case 1:
			ops = append(ops, DSOp{Op: "del", K: S(wideKey(at))})
		case 2:
			ops = append(ops, DSOp{Op: "get", K: S(fmt.Sprintf("l>%d>a", at))})
		case 3:
			ops = append(ops, DSOp{Op: "get", K: S(strings.Join(path[:len(path)*c.P[i]/15], ">"))})
		case 4:
			ops = append(ops, DSOp{Op: "push", V: v(dsOf(KV{"a", str("pushed")}))})
		case 5:
			ops = append(ops, DSOp{Op: "shift"})
		case 6:
			ops = append(ops, DSOp{Op: "pop"})
		case 7:
			ops = append(ops, DSOp{Op: "unshift", V: v(dsOf(KV{"a", str("first")}))})
		}
	}
	return append(ops, DSOp{Op: "get", K: S(strings.Join(path, ">"))}, DSOp{Op: "set", H: c.D, K: "z", V: v(num64(1))}, DSOp{Op: "get", K: S(fmt.Sprintf("l>%d>a", c.N-1))})
}

func largeHistory(c *LargeCase) *DSCase {
	return &DSCase{Ver: c.Ver, Init: []Val{c.value()}, Ops: c.ops()}
}

func largeClones(c *LargeCase) *DSCase {
	x := largeHistory(c)
	ops := append([]DSOp{{Op: "clone"}}, x.Ops...)
	if c.P[4]%2 == 0 { // the clone is modified
		n := 0
		var count func(v *Val)
		count = func(v *Val) {
			if v.K == "ds" {
				n++
			}
			for i := range v.M {
				count(&v.M[i].V)
			}
			for i := range v.L {
				count(&v.L[i])
			}
		}
		count(&x.Init[0])
		for i := range ops[1:] {
			if ops[i+1].Op == "set" || ops[i+1].Op == "del" {
				ops[i+1].H += n
			}
		}
	}
	x.Ops = append(ops, DSOp{Op: "clone", I: 1})
	return x
}

func largeMaps(c *LargeCase) *MapCase {
	v := c.value()
	var kinds func(v *Val)
	kinds = func(v *Val) {
		v.Kind = ""
		if v.K == "coll" && c.P[2]%2 == 0 {
			v.Kind = "l"
		}
		for i := range v.M {
			kinds(&v.M[i].V)
		}
		for i := range v.L {
			kinds(&v.L[i])
		}
	}
	kinds(&v)
	x := &MapCase{Top: v}
	if c.S%4 == 1 && c.P[1]%2 == 0 {
		x.Top = v.M[0].V
	}
	for i, op := range c.ops() {
		if op.Op != "get" {
			x.Ops = append(x.Ops, MapOp{Src: (i+c.P[0])%2 == 0, Op: op.Op, H: c.P[i%6] * c.N / 15, K: op.K, V: op.V, I: c.P[i%6]})
		}
	}
	return x
}

func largeBulk(c *LargeCase) *BulkCase {
	x := &BulkCase{Ver: c.Ver, Kind: c.kind(0)}
	for i := 0; i < 5; i++ {
		n := c.N
		if i > 0 {
			n = c.N * c.P[i] / 15
		}
		x.Ops = append(x.Ops, BulkOp{[]string{"push", "push", "unshift", "pop", "shift", "wave", "clone", "push"}[(c.P[i]+i)%8], n})
	}
	return x
}

func largeFind(c *LargeCase) *FindCase {
	l := c.records(c.N)
	l.L = append([]Val{dsOf(KV{"deep", str("first of all")}, KV{"b", str("b")})}, l.L...)
	at := c.N * c.P[1] / 15
	v, path := c.chain(str("leaf"), c.D)
	l.L[at].M = append(l.L[at].M, v.M...)
	x := &FindCase{Ver: c.Ver, Coll: l, Keys: []S{"deep", "b", "a", "zz", S(strings.Join(path, ">")), S(strings.Join(path[:len(path)/2], ">"))}}
	d := dsOf(KV{"a", str("new")})
	for i := 0; i < c.P[2]%4; i++ {
		x.Ops = append(x.Ops, DSOp{Op: []string{"push", "unshift", "pop", "shift"}[c.P[i]%4], V: &d})
	}
	return x
}

func largePairs(c *LargeCase) *PairCase {
	v := c.value()
	_, path := c.chain(str("leaf"), c.D)
	x := &PairCase{Kinds: []string{[]string{"t", "z", "c"}[c.P[0]%3], "t", "c"}}
	for i := 0; i < 3; i++ {
		x.Ops = append(x.Ops, PairOp{Op: "put", H: i, K: "a", V: &v, I: 1})
	}
	x.Ops = append(x.Ops, PairOp{Op: "clone", H: c.P[1] % 3}, PairOp{Op: "put", H: 0, K: "b", Pair: 2},
		PairOp{Op: "read", H: 1, K: S("a>" + strings.Join(path, ">"))}, PairOp{Op: "read", H: 1, K: S(fmt.Sprintf("a>l>%d>a", c.N-1))}, PairOp{Op: "take", H: c.P[2] % 3, K: "a"})
	small := dsOf(KV{"a", num64(1)})
	if c.P[3]%2 == 0 { // a long queue, then a short or an empty one
		x.Ops = append(x.Ops, PairOp{Op: "put", H: 2, V: &small, I: c.P[4] % 2, N: c.N / 2}, PairOp{Op: "take", H: 2, I: c.P[5] % 2, N: c.N * c.P[4] / 30},
			PairOp{Op: "put", H: 2, V: &small, I: c.P[5] % 2, N: c.N / 4}, PairOp{Op: "take", H: 2, I: c.P[4] % 2, N: c.N})
	}
	return x
}

func largePrint(c *LargeCase) *PrintCase {
	x := &PrintCase{Ver: c.Ver, V: c.value(), Order: c.P, Extra: []KV{{"k1", num64(1)}, {"q", str("x")}}}
	for i := 0; i < c.N; i++ {
		x.Lang = append(x.Lang, KV{S(wideKey(i * 7919 % c.N)), str(wideKey(i))})
	}
	return x
}

// --- caches

func largeCache(c *LargeCase) *CacheCase {
	x := &CacheCase{Ver: c.Ver}
	x.Ops = append(x.Ops, CacheOp{Op: "fill", N: c.N})
	for i := 1; i < 5; i++ {
		at := c.N * c.P[i] / 15
		switch (c.P[i] + i) % 7 {
		case 0:
			x.Ops = append(x.Ops, CacheOp{Op: "del", K: at})
		case 1:
			x.Ops = append(x.Ops, CacheOp{Op: "fill", K: at, N: 1 + c.N/4})
		case 2:
			x.Ops = append(x.Ops, CacheOp{Op: "clean", N: []int{0, 1, 10, 33, 50, 99}[c.P[0]%6]})
		case 3:
			x.Ops = append(x.Ops, CacheOp{Op: "verify"})
		case 4:
			x.Ops = append(x.Ops, CacheOp{Op: "probe", K: at, N: 1 + c.N/3})
		case 5:
			x.Ops = append(x.Ops, CacheOp{Op: "set", K: at})
		case 6:
			x.Ops = append(x.Ops, CacheOp{Op: "sleep", N: 3})
		}
	}
	return x
}

func largeCacheMap(c *LargeCase) *CacheCase {
	x := largeCache(c)
	x.Ops = append(x.Ops, CacheOp{Op: "del", K: c.N / 2}, CacheOp{Op: "set", K: c.N - 1}, CacheOp{Op: "probe", K: c.N / 2, N: 1 + c.N/2})
	return x
}

func largeAges(c *LargeCase) *CacheCase {
	x := largeLRU(c)
	x.Max, x.Valid = 0, true
	for i := range x.Ops {
		if x.Ops[i].Op == "clean" {
			x.Ops[i].N = 0
		}
	}
	if c.P[2]%2 == 0 {
		x.Expire = 5
	}
	at := c.N * c.P[3] / 15
	x.Ops = append(x.Ops, CacheOp{Op: "ttl", K: at, N: 2}, CacheOp{Op: "touch", K: at + 1}, CacheOp{Op: "sleep", N: 2 + c.P[4]}, CacheOp{Op: []string{"verify", "probe"}[c.P[1]%2], K: at / 2, N: 100})
	return x
}

func largeSettings(c *LargeCase) *CacheCase {
	x := largeLRU(c)
	at := c.N * c.P[3] / 15
	x.Ops = append(x.Ops, CacheOp{Op: "max", N: c.N * c.P[4] / 15}, CacheOp{Op: "set", K: at}, CacheOp{Op: "sleep", N: 4}, CacheOp{Op: "set", K: c.N + 1},
		CacheOp{Op: "expire", N: c.P[5] / 2}, CacheOp{Op: "probe", K: at, N: 1 + c.N/8}, CacheOp{Op: "max", N: c.N}, CacheOp{Op: "fill", K: at, N: c.N / 2})
	return x
}

func largeLRU(c *LargeCase) *CacheCase {
	x := largeCache(c)
	x.Max = c.N * (12 + c.P[0]) / 20
	if c.P[5]%4 == 0 {
		x.Max = 0
	}
	if c.S%2 == 0 {
		x.Expire = 2
	}
	x.Valid = c.S%3 == 0
	x.Ops = append(x.Ops, CacheOp{Op: "touch", K: c.N / 2}, CacheOp{Op: "fill", K: c.N / 3, N: c.N / 8})
	return x
}

// --- language tables

func (c *LargeCase) flat() S {
	var b strings.Builder
	end := []string{"\n", "\r\n"}[c.P[0]%2]
	for i := 0; i < c.N; i++ {
		fmt.Fprintf(&b, "%s = value %d%s", wideKey(i), i, end)
		if i%50 == c.P[1] {
			b.WriteString("# comment = 1" + end + end + "nothing" + end)
		}
	}
	b.WriteString(strings.Repeat("k", c.N) + "=" + strings.Repeat("v", c.N*c.P[2]))
	return S(b.String())
}

func (c *LargeCase) doc() XDoc {
	d := XDoc{Name: "large", Lang: "en", Style: c.P[3] & 7}
	for i := 0; i < c.N; i++ {
		e := XEntry{ID: S(wideKey(i)), Style: i & 7, Text: []Piece{{S("value " + strconv.Itoa(i)), i % 5}}}
		if i%9 == c.P[0]%9 {
			s := S("s" + strconv.Itoa(i))
			e.Status = &s
		}
		d.Entries = append(d.Entries, e)
	}
	e := XEntry{ID: S(strings.Repeat("i", c.N))}
	for i := 0; i < c.D; i++ {
		e.Text = append(e.Text, Piece{S(strings.Repeat("t", c.N)), (c.P[4] + i) % 5})
	}
	d.Entries = append(d.Entries, e)
	return d
}

func largeTable(c *LargeCase) *LangCase {
	x := &LangCase{Ver: c.Ver}
	d := c.doc()
	for i := 0; i < 5; i++ {
		k := S(wideKey(c.N * c.P[i] / 15))
		switch (c.P[i] + i) % 7 {
		case 0:
			x.Ops = append(x.Ops, LangOp{Op: "text", V: c.flat()})
		case 1:
			x.Ops = append(x.Ops, LangOp{Op: "xml", Doc: &d})
		case 2:
			x.Ops = append(x.Ops, LangOp{Op: "del", K: k})
		case 3:
			x.Ops = append(x.Ops, LangOp{Op: "set", K: k, V: S(strings.Repeat("x", c.N))})
		case 4:
			x.Ops = append(x.Ops, LangOp{Op: "status", K: k, V: "s"})
		case 5:
			x.Ops = append(x.Ops, LangOp{Op: "entries", K: k, V: "ab"})
		case 6:
			for j := 0; j < 40; j++ {
				x.Ops = append(x.Ops, LangOp{Op: "set", K: S(wideKey(j)), V: "w"})
			}
		}
	}
	return x
}

func largeExport(c *LargeCase) *ExportCase {
	d := c.doc()
	x := &ExportCase{Name: S(strings.Repeat("<n&\"", c.N/4)), Lang: "fr", Doc: &d}
	for i := 0; i < c.N; i += 3 {
		x.Set = append(x.Set, KVs{S(wideKey(i)), S(strings.Repeat("]]>", i%5) + "\r\n")})
	}
	x.Set = append(x.Set, KVs{S(strings.Repeat("<", c.N)), S(strings.Repeat("]]>", c.N))})
	for i := 0; i < c.N; i += 5 {
		x.Status = append(x.Status, KVs{S(wideKey(i)), S("\"" + strconv.Itoa(i) + "\n")})
	}
	return x
}

func init() {
	large("C01", 800, 5003, 1, largeText, renderCheck(always))
	large("C02", 4000, 10, 70, largeFields, renderCheck(always))
	large("C03", 800, 5003, 1, largeLoop, renderCheck(always))
	large("C04", 800, 2003, 30, largeConds, renderCheck(always))
	large("C05", 800, 2003, 1, largeRefs, renderCheck(always))
	large("C06", 1200, 2003, 60, largeNest, renderCheck(always))
	large("C07", 800, 5003, 1, largeLang, renderCheck(always))
	large("C08", 800, 2003, 60, largeLoad, runLoad)
	large("C09", 400, 2003, 40, largePure, runPure)
	large("C10", 400, 600, 30, largeTmplClone, runClone)
	large("C33", 400, 5003, 40, largePrintTmpl, runPrintTmpl)
	large("C12", 1500, 5003, 60, largeHistory, runDSHistory)
	large("C14", 800, 5003, 60, largeMaps, runMaps)
	large("C15", 400, 5003, 1, largeBulk, runBulk)
	large("C16", 400, 5003, 60, largeFind, runFind)
	large("C17", 400, 5003, 60, largeClones, runCloneHistory)
	large("C18", 250, 2003, 60, largePairs, runPairs)
	large("C21", 400, 5003, 40, largePrint, runPrint)
	large("C22", 400, 5003, 1, largeCacheMap, runCacheMap)
	large("C23", 400, 5003, 1, largeAges, runCacheAge)
	large("C34", 400, 5003, 1, largeSettings, runCacheSettings)
	large("C24", 400, 5003, 1, largeLRU, runCacheLRU)
	large("C26", 400, 5003, 4, largeTable, runLang)
	large("C27", 1500, 10003, 1, func(c *LargeCase) *FlatCase {
		return &FlatCase{Ver: c.Ver, New: c.P[3]%2 == 0, Texts: []S{c.flat(), "a=b"}}
	}, runFlat)
	large("C28", 400, 5003, 4, func(c *LargeCase) *XMLCase {
		return &XMLCase{Ver: c.Ver, New: c.P[5]%2 == 0, Docs: []XDoc{c.doc(), {Name: "small", Lang: "fr", Entries: []XEntry{{ID: S(wideKey(c.P[0]))}}}}}
	}, runXML)
	large("C29", 400, 5003, 4, largeExport, runExport)
}
