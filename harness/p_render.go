package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"sync"

	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
	"pgregory.net/rapid"
)

// --- C32: rendering with data that others modify ---------------------------------------

// ROp is a call on the shared data.
type ROp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
}

// RenderCase renders a template with thread safe data while other goroutines modify it.
type RenderCase struct {
	Parts   []int   `json:"parts"` // numbers of the pieces of the template
	Repeat  int     `json:"repeat"`
	Zero    bool    `json:"zero,omitempty"` // data sets used from their zero value
	Init    int     `json:"init"`           // records at the start
	Render  []int   `json:"render"`         // per rendering goroutine: number of renders
	Prog    [][]ROp `json:"prog"`
	NoLevel bool    `json:"nolevel,omitempty"` // the nested data set is not there at the start
}

// the pieces; every one writes marks <name:text>
var renderPieces = []string{
	"<a:{{a}}>",
	"<b:{{b}}>",
	"<nx:{{n>x}}>",
	"<e:##e##>",
	"<f:##f##>",
	"??a:ca??[[ca]]<ca:{{a}}>[[]][[ca.none]]<cz:>[[]]",
	"&&rn:n&&[[rn]]<rn:{{x}}>[[]]",
	"??n:cn??[[cn]]<cn:{{x}}>[[]]",
	"@@l:r@@[[r]]<r:{{id}}><v:{{id}}={{v}}>[[]][[r.none]]<r:none>[[]]",
	"@@l:q@@[[q]]<q:{{id}}>[[]][[q.first]]<q:{{id}}>[[]][[q.last]]<q:{{id}}>[[]][[q.even]]<q:{{id}}>[[]][[q.none]]<q:none>[[]]",
	"@@l:k@@[[k]]<k:{{id}}>[[]][[k.key.1]]<k:{{id}}>[[]][[k.none]]<k:none>[[]]",
	"<l0:{{l>0>id}}>",
	"<l1:{{l>1>id}}>",
	"&&:b:p&&[[p]]<p:{{b}}>[[]]",
	"!!dump!!",
	"@@l:o@@[[o]]<o:{{id}}>@@l:i@@[[i]]<i:{{id}}>??a:ia??[[ia]]<ia:{{a}}>[[]][[]][[i.none]]<i:none>[[]][[]][[o.none]]<o:none>[[]]",
	"<s:{{s>x}}>@@s>l:st@@[[st]]<st:{{.counter}}{{v}}>[[]]",
	"@@l:m@@[[m]]<m:{{.counter}}>[[]][[m.none]]<m:none>[[]]",
}

var renderOps = []string{"seta", "seta", "dela", "setb", "setx", "setx", "newn", "deln", "push", "push", "pop", "pop", "shift", "unshift", "setv", "setv", "newl", "sete", "dele", "loade"}

func genRender(t *rapid.T) *RenderCase {
	c := &RenderCase{Repeat: between(t, 1, 6), Zero: chance(t, 30), Init: intn(t, 5), NoLevel: chance(t, 15)}
	for i, n := 0, between(t, 1, 5); i < n; i++ {
		c.Parts = append(c.Parts, intn(t, len(renderPieces)))
	}
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		c.Render = append(c.Render, between(t, 1, 4))
	}
	ops := renderOps
	switch intn(t, 4) {
	case 0: // the collection only grows
		ops = []string{"push", "push", "seta", "setx", "setv"}
	case 1: // nothing is replaced
		ops = []string{"seta", "setb", "setx", "push", "pop", "shift", "unshift", "setv", "sete"}
	}
	for g, n := 0, between(t, 1, 3); g < n; g++ {
		var p []ROp
		for i, m := 0, between(t, 2, 16); i < m; i++ {
			p = append(p, ROp{pick(t, ops), intn(t, 4)})
		}
		c.Prog = append(c.Prog, p)
	}
	return c
}

// rwrite is a write of a value, or of nothing at all (""), within an interval.
type rwrite struct {
	call, ret int64
	val       string
}

// register is all writes to one place.
type register struct {
	mu   sync.Mutex
	w    []rwrite
	weak bool // the place itself is replaced: any value ever written is accepted
}

func (g *register) add(call, ret int64, val string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.w = append(g.w, rwrite{call, ret, val})
}

// could tells whether the place may have held val at some moment of the interval.
func (g *register) could(call, ret int64, val string) bool {
	for _, w := range g.w {
		if w.val != val || w.call > ret {
			continue
		}
		over := false
		for _, o := range g.w {
			over = over || o.call > w.ret && o.ret < call
		}
		if !over || g.weak {
			return true
		}
	}
	return g.weak && val == ""
}

// couldBeSet tells whether the place may have held something at some moment of the interval.
func (g *register) couldBeSet(call, ret int64) bool {
	for _, w := range g.w {
		if w.val != "" && g.could(call, ret, w.val) {
			return true
		}
	}
	return false
}

var markRe = regexp.MustCompile(`<([a-z0-9]+):([^<>]*)>`)

func runRender(r *R, c *RenderCase) error {
	if c.Repeat < 1 || c.Repeat > 50 || c.Init < 0 || c.Init > 50 || len(c.Parts) == 0 || len(c.Render) == 0 {
		return errDiscard
	}
	src, decl := "", ""
	has := map[string]bool{}
	seen := map[int]bool{}
	for i := 0; i < c.Repeat; i++ {
		for _, p := range c.Parts {
			if p < 0 || p >= len(renderPieces) {
				return errDiscard
			}
			s := renderPieces[p]
			k := strings.Index(s, "[[")
			if k < 0 {
				k = len(s)
			}
			src += s[:k]
			if !seen[p] {
				seen[p] = true
				decl += s[k:]
			}
		}
	}
	t, err := x2.NewXTemplateFromString(decl + src)
	if err != nil {
		return failf("template refused: %v", err)
	}
	newDS := func() *x2.XDatasetTS {
		if c.Zero {
			return &x2.XDatasetTS{}
		}
		return x2.NewXDatasetTS(&x2.XDataset{})
	}
	var regs sync.Map // name of the place: *register
	reg := func(name string) *register {
		g, _ := regs.LoadOrStore(name, &register{})
		return g.(*register)
	}
	d, n, lang := newDS(), newDS(), x2.NewXLanguage("t", language.English)
	l := &x2.XDatasetCollectionTS{}
	var recMu sync.Mutex
	var recs []*x2.XDatasetTS
	var recIDs []string
	record := func(id string) *x2.XDatasetTS {
		x := newDS()
		x.Set("id", id)
		x.Set("v", "v"+id+"0")
		reg("v"+id).add(0, 0, "v"+id+"0")
		recMu.Lock()
		defer recMu.Unlock()
		recs, recIDs = append(recs, x), append(recIDs, id)
		return x
	}
	for _, k := range []string{"a", "b"} {
		d.Set(k, k+"0")
		reg(k).add(0, 0, k+"0")
	}
	n.Set("x", "x0")
	reg("x").add(0, 0, "x0")
	if !c.NoLevel {
		d.Set("n", n)
	} else {
		reg("x").weak = true
	}
	lang.Set("e", "e0")
	reg("e").add(0, 0, "e0")
	lang.Set("f", "steady")
	d.Set("#", lang)
	st := newDS()
	st.Set("x", "still")
	sl := &x2.XDatasetCollectionTS{}
	for i := 0; i < 2; i++ {
		x := newDS()
		x.Set("v", fmt.Sprint("s", i))
		sl.Push(x)
	}
	st.Set("l", sl)
	d.Set("s", st)
	var order []string // of the collection, while it only grows
	type stay struct {
		in  rwrite
		out rwrite
	}
	var stayMu sync.Mutex
	stays := map[string]*stay{}
	for i := 0; i < c.Init; i++ {
		id := fmt.Sprint("i", i)
		l.Push(record(id))
		stays[id] = &stay{in: rwrite{0, 0, id}}
		order = append(order, id)
	}
	d.Set("l", l)
	grows, replaced := true, false
	for _, p := range c.Prog {
		for _, op := range p {
			switch op.Op {
			case "pop", "shift", "unshift":
				grows = false
			case "newl":
				grows, replaced = false, true
			case "newn", "deln":
				reg("x").weak = true
			}
			has[op.Op] = true
		}
	}
	h := newHistory(0) // only its clock
	type render struct {
		call, ret int64
		out       string
	}
	nr := len(c.Render)
	renders := make([][]render, nr)
	err = parallel(nr+len(c.Prog), func(g int) error {
		if g < nr {
			for i := 0; i < c.Render[g]; i++ {
				call := h.call()
				out := t.Execute(d)
				renders[g] = append(renders[g], render{call, h.call(), out})
			}
			return nil
		}
		g -= nr
		cur, curL := n, l
		for i, op := range c.Prog[g] {
			tag := fmt.Sprintf("g%do%d", g, i)
			call := h.call()
			switch op.Op {
			case "seta", "setb":
				k := op.Op[3:]
				d.Set(k, k+tag)
				reg(k).add(call, h.call(), k+tag)
			case "dela":
				if op.K%2 == 0 {
					d.Del("a")
				} else {
					d.Set("a", nil)
				}
				reg("a").add(call, h.call(), "")
			case "setx":
				cur.Set("x", "x"+tag)
				reg("x").add(call, h.call(), "x"+tag)
			case "newn":
				cur = newDS()
				cur.Set("x", "x"+tag)
				d.Set("n", cur)
				reg("x").add(call, h.call(), "x"+tag)
			case "deln":
				d.Del("n")
			case "push", "unshift":
				x := record(tag)
				stayMu.Lock()
				s := &stay{in: rwrite{call: call, val: tag}}
				stays[tag] = s
				stayMu.Unlock()
				if op.Op == "push" {
					curL.Push(x)
				} else {
					curL.Unshift(x)
				}
			case "pop", "shift":
				var x x2.XDatasetDef
				capturePanic(func() {
					if op.Op == "pop" {
						x = curL.Pop()
					} else {
						x = curL.Shift()
					}
				})
				if x != nil {
					id, _ := x.GetString("id")
					stayMu.Lock()
					if s := stays[id]; s != nil {
						s.out = rwrite{call, h.call(), id}
					}
					stayMu.Unlock()
				}
			case "newl":
				x := &x2.XDatasetCollectionTS{}
				rec := record(tag)
				x.Push(rec)
				stayMu.Lock()
				stays[tag] = &stay{in: rwrite{call: call, val: tag}}
				stayMu.Unlock()
				curL = x
				d.Set("l", x)
			case "setv":
				recMu.Lock()
				if len(recs) == 0 {
					recMu.Unlock()
					continue
				}
				k := op.K % len(recs)
				x, id := recs[k], recIDs[k]
				recMu.Unlock()
				x.Set("v", "v"+id+tag)
				reg("v"+id).add(call, h.call(), "v"+id+tag)
			case "sete":
				lang.Set("e", "e"+tag)
				reg("e").add(call, h.call(), "e"+tag)
			case "dele":
				lang.Del("e")
				reg("e").add(call, h.call(), "")
			case "loade":
				lang.LoadString("e=e" + tag + "\n")
				reg("e").add(call, h.call(), "e"+tag)
			}
		}
		return nil
	})
	if err != nil {
		return failKind(err, "template %q: %v", decl+src, err)
	}
	// the collection as it is now tells the order if it only grew
	var final []string
	if grows {
		for i := 0; i < l.Count(); i++ {
			x, _ := l.Get(i)
			id, _ := x.GetString("id")
			final = append(final, id)
		}
	}
	check := func(x render) error {
		bad := func(mark []string, why string) error {
			return failf("template %q rendered %q: %s: %s", decl+src, x.out, mark[0], why)
		}
		runs := map[string][]string{} // records of the loops by mark
		member := func(id string) bool {
			s := stays[id]
			return s != nil && s.in.call < x.ret && (s.out.ret == 0 || s.out.ret > x.call)
		}
		marks := map[string]int{}
		counter := 0
		for _, m := range markRe.FindAllStringSubmatch(x.out, -1) {
			text := m[2]
			marks[m[1]]++
			switch m[1] {
			case "cz": // the condition was not met
				if !reg("a").could(x.call, x.ret, "") {
					return bad(m, "a was there all the time")
				}
			case "a", "ca", "ia":
				if m[1] != "a" && !reg("a").couldBeSet(x.call, x.ret) {
					return bad(m, "a was not there at that time")
				}
				if !reg("a").could(x.call, x.ret, text) {
					return bad(m, "not a value of a at that time")
				}
			case "b", "p":
				if !reg("b").could(x.call, x.ret, text) {
					return bad(m, "not a value of b at that time")
				}
			case "nx", "rn", "cn":
				if !reg("x").could(x.call, x.ret, text) {
					return bad(m, "not a value of x at that time")
				}
			case "e":
				if !reg("e").could(x.call, x.ret, text) {
					return bad(m, "not a text of e at that time")
				}
			case "f":
				if text != "steady" {
					return bad(m, "nobody changed this entry")
				}
			case "s":
				if text != "still" {
					return bad(m, "nobody changed this field")
				}
			case "v":
				id, v, _ := strings.Cut(text, "=")
				if !reg("v"+id).could(x.call, x.ret, v) {
					return bad(m, "not a value of this record at that time")
				}
			case "r", "q", "k", "o", "i":
				if text == "none" {
					if grows && c.Init > 0 {
						return bad(m, "the collection was never empty")
					}
					continue
				}
				if !member(text) {
					return bad(m, "not a record of the collection at that time")
				}
				runs[m[1]] = append(runs[m[1]], text)
			case "l0", "l1":
				i := int(m[1][1] - '0')
				if text == "" {
					if grows && c.Init > i {
						return bad(m, "this record was there all the time")
					}
					continue
				}
				if !member(text) {
					return bad(m, "not a record of the collection at that time")
				}
				if grows && text != final[i] {
					return bad(m, "this record was never there")
				}
			case "st":
			case "m":
				if text == "none" {
					continue
				}
				if text != "1" && text != fmt.Sprint(counter+1) {
					return bad(m, "the loop does not count one by one")
				}
				counter, _ = strconv.Atoi(text)
			default:
				return bad(m, "unknown mark")
			}
		}
		// what is rendered once for each element, whatever its value
		for name, piece := range map[string]int{"a": 0, "b": 1, "nx": 2, "e": 3, "f": 4, "rn": 6, "l0": 11, "l1": 12, "p": 13, "s": 16} {
			if n := c.Repeat * count(c.Parts, piece); marks[name] != n {
				return failf("template %q rendered %q: %d times <%s:...>, expected %d", decl+src, x.out, marks[name], name, n)
			}
		}
		if n := c.Repeat * count(c.Parts, 5); marks["ca"]+marks["cz"] != n {
			return failf("template %q rendered %q: %d conditions met and %d not, of %d", decl+src, x.out, marks["ca"], marks["cz"], n)
		}
		if n := c.Repeat * count(c.Parts, 7); marks["cn"] > n {
			return failf("template %q rendered %q: %d conditions met of %d", decl+src, x.out, marks["cn"], n)
		}
		if seen[16] {
			if k := strings.Count(x.out, "<s:still><st:1s0><st:2s1>"); k != c.Repeat*count(c.Parts, 16) {
				return failf("template %q rendered %q: the part nobody modified is not as it should be", decl+src, x.out)
			}
		}
		if grows {
			for name, piece := range map[string]int{"r": 8, "q": 9, "k": 10} {
				loops := c.Repeat * count(c.Parts, piece)
				l := runs[name]
				for len(l) > 0 {
					k := 0
					for k < len(l) && k < len(final) && l[k] == final[k] {
						k++
					}
					if k == 0 || k < c.Init {
						return failf("template %q rendered %q: the loop <%s:...> shows %v, the collection grew from %v to %v", decl+src, x.out, name, runs[name], order, final)
					}
					l = l[k:]
					loops--
				}
				if loops < 0 || loops > 0 && c.Init > 0 {
					return failf("template %q rendered %q: the loops <%s:...> show %v, the collection grew from %v to %v", decl+src, x.out, name, runs[name], order, final)
				}
			}
		}
		return nil
	}
	for _, l := range renders {
		for _, x := range l {
			if err := check(x); err != nil {
				return err
			}
		}
	}
	// nobody works any more: as with the clone of the data
	if a, b := t.Execute(d), t.Execute(d.Clone()); a != b {
		return failf("template %q: afterwards renders %q, with a clone of the data %q", decl+src, a, b)
	}
	for op := range has {
		r.Label("%s", op)
	}
	for p := range seen {
		r.Label("piece %d", p)
	}
	if grows {
		r.Label("only grows")
	}
	if replaced {
		r.Label("replaced")
	}
	if len(has) > 0 {
		r.NonTrivial()
	}
	return nil
}

func count(l []int, x int) (n int) {
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

func init() {
	p := Add(Part{Prop: "C32", Name: "render", Race: true, Stress: true, Reps: 4, Quick: 4000, Rule: "the data is modified while templates are rendered with it"},
		genRender, runRender)
	WithShrink(p, func(c *RenderCase) (out []*RenderCase) {
		for _, p := range shrinkProg(c.Prog) {
			d := *c
			d.Prog = p
			out = append(out, &d)
		}
		if len(c.Parts) > 1 {
			for i := range c.Parts {
				d := *c
				d.Parts = append(append([]int{}, c.Parts[:i]...), c.Parts[i+1:]...)
				out = append(out, &d)
			}
		}
		if len(c.Render) > 1 {
			d := *c
			d.Render = c.Render[:1]
			out = append(out, &d)
		}
		if c.Repeat > 1 {
			d := *c
			d.Repeat--
			out = append(out, &d)
		}
		return out
	})
}
