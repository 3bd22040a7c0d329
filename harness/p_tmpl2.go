package harness

import (
	"fmt"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// --- C08: acceptance and failed loads -------------------------------------------

// LoadCase loads sources one after another into one template.
type LoadCase struct {
	Ver   string `json:"ver"`
	First int    `json:"first"` // 0: empty template, 1: constructor with the first source
	Srcs  []S    `json:"srcs"`
	Data  *Val   `json:"data"`
}

var bracketToks = []string{"[[a]]", "[[]]", "[[b]]", "[[]]", "[[a|b]]", "[[a.none]]", "%--", "--%", "x", "\n", "&&a&&", "&&b&&", "{{a}}", "[[A]]", "[[ ]]", "[[", "]]", "[[a]]\n", "[[]]\r\n", "%-- [[a]] --%", "%--[[]]--%", "[[|]]", "[[-_.]]"}

func genBracketSrc(t *rapid.T, v2 bool, data *Val) string {
	switch intn(t, 4) {
	case 0: // soup
		s := ""
		for i, n := 0, intn(t, 12); i < n; i++ {
			s += pick(t, bracketToks)
		}
		return s
	case 1: // soup, balanced
		s := ""
		for i, n := 0, intn(t, 12); i < n; i++ {
			s += pick(t, bracketToks)
		}
		return balance(s, v2)
	}
	cfg := tmplCfg{depth: 3, parts: 4, decl: 2, variant: 10, breaks: true, w: [12]int{3, 0, 3, 6, 1, 1, 0, 1, 0, 2, 0, 0}}
	s := newTmplGen(t, &cfg, v2, data).body(-1, 3, nil)
	if chance(t, 50) {
		// a fault: a bracket tag inserted or removed at any place
		var pos []int
		for i := 0; i+2 <= len(s); i++ {
			if s[i:i+2] == "[[" {
				pos = append(pos, i)
			}
		}
		if len(pos) > 0 && chance(t, 50) {
			i := pick(t, pos)
			j := i
			for j < len(s) && s[j] != ']' {
				j++
			}
			for j < len(s) && s[j] == ']' {
				j++
			}
			s = s[:i] + s[j:]
		} else {
			i := intn(t, len(s)+1)
			s = s[:i] + pick(t, []string{"[[]]", "[[a]]", "%--[[a]]--%", "[[]][[a]]", "[[", "%--", "--%"}) + s[i:]
		}
	}
	return s
}

// snapshot renders a template and its sub-templates in every way the API offers.
func snapshot(t Tmpl, d DS, depth int) []string {
	out := []string{"render: " + t.Execute(d)}
	if depth > 0 {
		for _, n := range append([]string{"|", "-_.", "a.none", "b.none", "zz", "z"}, tmplNames...) {
			if s := t.GetTemplate(n); s != nil {
				for _, x := range snapshot(s, d, depth-1) {
					out = append(out, n+"/"+x)
				}
			}
		}
	}
	return out
}

func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%q became %q", x, y)
		}
	}
	return ""
}

// visible gives the names that can be used in t.
func (t *MTmpl) visible(v2 bool) map[string]*MTmpl {
	out := map[string]*MTmpl{}
	for x := t; x != nil; x = x.father {
		for n, s := range x.subs {
			if out[n] == nil {
				out[n] = s
			}
		}
		if !v2 {
			break
		}
	}
	return out
}

// targets gives every template t may refer to, whatever the data.
func (t *MTmpl) targets(v2 bool) []*MTmpl {
	var out []*MTmpl
	vis := t.visible(v2)
	for _, p := range t.parts {
		if p.kind != pRef && p.kind != pLoop && p.kind != pCond {
			continue
		}
		ids := strings.Split(p.data, ":")
		for n, s := range vis {
			hit := false
			if p.kind == pRef {
				hit = n == ids[0] || len(ids) >= 3 && strings.HasPrefix(n, ids[2])
			} else {
				id := ids[0]
				if len(ids) > 1 {
					id = ids[1]
				}
				hit = n == id || strings.HasPrefix(n, id+".")
			}
			if hit {
				out = append(out, s)
			}
		}
	}
	return out
}

// recursive tells whether rendering t (or one of its sub-templates) may not end, or
// take very long.
func (t *MTmpl) recursive(v2 bool, data *MDS) bool {
	all := []*MTmpl{}
	seen := map[*MTmpl]bool{}
	var collect func(x *MTmpl)
	collect = func(x *MTmpl) {
		if !seen[x] {
			seen[x] = true
			all = append(all, x)
			for _, s := range x.subs {
				collect(s)
			}
		}
	}
	collect(t)
	state := map[*MTmpl]int{}
	var cyclic func(x *MTmpl) bool
	cyclic = func(x *MTmpl) bool {
		switch state[x] {
		case 1:
			return true
		case 2:
			return false
		}
		state[x] = 1
		for _, s := range x.targets(v2) {
			if cyclic(s) {
				return true
			}
		}
		state[x] = 2
		return false
	}
	for _, x := range all {
		if cyclic(x) || x.tooLong(v2, data) {
			return true
		}
	}
	return false
}

func runLoad(r *R, c *LoadCase) error {
	ver := verOf(c.Ver)
	v2 := ver.IsV2()
	data, mdat := buildDS(ver, c.Data)
	cur := ver.NewTmpl()
	mcur := &MTmpl{}
	loaded := false
	exact := true // the model still tells what the template holds
	fails, oks := 0, 0
	for i, src := range c.Srcs {
		m, merr, vague := parseModel(string(src), v2)
		if vague {
			return errDiscard
		}
		if merr == nil && m.recursive(v2, mdat) {
			return errDiscard
		}
		// the constructor decides the same way
		nt, nerr := ver.TmplFromString(string(src))
		if (nerr != nil) != (merr != nil) {
			return failf("%s: NewXTemplateFromString(%q): error %v, expected an error: %v", c.Ver, src, nerr, merr != nil)
		}
		if (nt == nil) != (nerr != nil) {
			return failf("%s: NewXTemplateFromString(%q): template returned: %v, error %v", c.Ver, src, nt != nil, nerr)
		}
		if i == 0 && c.First == 1 {
			if nerr != nil {
				fails++
				continue
			}
			cur, mcur, loaded = nt, m, true
			oks++
			continue
		}
		var before []string
		if loaded {
			before = snapshot(cur, data, 2)
		}
		err := cur.LoadString(string(src))
		if (err != nil) != (merr != nil) {
			return failf("%s: LoadString(%q): error %v, expected an error: %v", c.Ver, src, err, merr != nil)
		}
		if err != nil {
			fails++
			if loaded {
				if d := diff(before, snapshot(cur, data, 2)); d != "" {
					return failf("%s: the failed load of %q (after %q) changed the template: %s", c.Ver, src, c.Srcs[:i], d)
				}
				r.Label("failed on loaded")
			} else {
				// whatever it renders, it does
				cur.Execute(data)
				cur.Execute(nil)
			}
			continue
		}
		oks++
		if !loaded {
			// whatever an earlier failed load did, the first one that succeeds is what is rendered
			mcur, loaded = m, true
		} else {
			merged := mcur
			merged.parse(string(src), v2)
			if merged.recursive(v2, mdat) {
				return errDiscard
			}
			mcur = merged
			w1, _, ok1, _ := merged.render(v2, mdat, dumpOf(data))
			w2, _, ok2, _ := m.render(v2, mdat, dumpOf(data))
			exact = exact && ok1 && ok2 && w1 == w2
			if !exact {
				continue
			}
		}
		if exact {
			want, _, ok, _ := mcur.render(v2, mdat, dumpOf(data))
			if !ok {
				continue
			}
			if got := cur.Execute(data); got != want {
				return failf("%s: after loading %q the template renders %q, expected %q", c.Ver, c.Srcs[:i+1], got, want)
			}
		}
	}
	if fails > 0 && oks > 0 {
		r.NonTrivial()
	}
	if fails > 0 {
		r.Label("failed")
	}
	if oks > 0 {
		r.Label("accepted")
	}
	return nil
}

// --- C09: rendering is total and pure --------------------------------------------

// PureCase renders templates with data sets in some order.
type PureCase struct {
	Ver  string  `json:"ver"`
	Srcs []S     `json:"srcs"`
	Data []*Val  `json:"data"` // nil: no data set
	Lang []KVs   `json:"lang,omitempty"`
	NoL  int     `json:"nolang,omitempty"`
	Ops  [][]int `json:"ops"` // template, data set, how
}

var pureVals = &valCfg{keys: append([]string{".counter", "x"}, letters...), scalars: append(append(append([]string{}, scalarKinds...), tmplScalars...), moreKinds...), maxLen: 4, maxKeys: 5, user: 4, wide: 1}

func genPure(t *rapid.T) *PureCase {
	c := &PureCase{Ver: genVer(t)}
	vc := *pureVals
	if c.Ver == "v2" {
		vc.ts = 25
	}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		if chance(t, 20) {
			c.Data = append(c.Data, nil)
			continue
		}
		d := genDSVal(t, &vc, 3)
		d.M = append(d.M, KV{S(pick(t, letters)), genCollVal(t, &vc, 2)}, KV{S(pick(t, letters)), genDSVal(t, &vc, 2)})
		c.Data = append(c.Data, &d)
	}
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		cfg := tmplCfg{depth: 3, parts: 5, decl: 3, variant: 40, breaks: true, values: []string{"a"}, w: [12]int{2, 1, 4, 4, 6, 4, 8, 6, 2, 1, 2, 0}}
		s := newTmplGen(t, &cfg, c.Ver == "v2", pick(t, c.Data)).body(-1, 3, nil)
		if chance(t, 20) {
			// forms the documentation leaves open must not fail either
			s += pick(t, []string{"&&a:b:c&&", "&&a:b:c:d&&", "@@a:b:c@@", "??a:b:c??", "&&:::&&", "@@:@@", "??:??", "{{>}}", "{{a>>b}}", "&&:&&", "@@a>01:b@@", "{{a>+1}}", "!!other!!", "{{#}}", "??#:a??"})
		}
		c.Srcs = append(c.Srcs, S(balance(s, c.Ver == "v2")))
	}
	switch intn(t, 4) {
	case 0:
		c.Lang = genLangTable(t)
	case 1:
		c.NoL = intn(t, 3)
	case 2: // a language of its own for some of the data sets
		for _, d := range c.Data {
			if d != nil && chance(t, 60) {
				d.M = append(d.M, KV{"#", genLangVal(t)})
			}
		}
	case 3:
		for _, d := range c.Data {
			innerLangs(t, d, false, 40)
		}
	}
	for i, n := 0, between(t, 2, 8); i < n; i++ {
		c.Ops = append(c.Ops, []int{intn(t, 3), intn(t, 3), intn(t, 4)})
	}
	return c
}

func runPure(r *R, c *PureCase) error {
	ver := verOf(c.Ver)
	v2 := ver.IsV2()
	type dat struct {
		d     DS
		m     *MDS
		print string
	}
	var ds []dat
	for _, v := range c.Data {
		if v == nil {
			ds = append(ds, dat{})
			continue
		}
		d, m := buildDS(ver, v)
		addLang(ver, d, m, c.Lang, c.NoL)
		ds = append(ds, dat{d, m, d.GoString() + "\n" + d.String()})
	}
	var ts []Tmpl
	var ms []*MTmpl
	for _, s := range c.Srcs {
		m, merr, vague := parseModel(string(s), v2)
		if vague || merr != nil {
			return errDiscard
		}
		for _, d := range ds {
			if m.recursive(v2, d.m) {
				return errDiscard
			}
		}
		t, err := ver.TmplFromString(string(s))
		if err != nil {
			return errDiscard
		}
		ts, ms = append(ts, t), append(ms, m)
	}
	if len(ts) == 0 || len(ds) == 0 {
		return errDiscard
	}
	first := map[string]string{}
	repeats, nils, loops := 0, 0, 0
	for _, op := range c.Ops {
		if len(op) < 3 {
			continue
		}
		ti, di := op[0]%len(ts), op[1]%len(ds)
		d := ds[di]
		key := fmt.Sprint(ti, " ", di)
		out := ts[ti].Execute(d.d)
		if d.d == nil {
			nils++
		}
		if was, ok := first[key]; ok {
			repeats++
			if was != out {
				return failf("%s: template %q rendered twice with the same data: first %q then %q (renders in between: %v)", c.Ver, c.Srcs[ti], was, out, c.Ops)
			}
		}
		first[key] = out
		if want, st, ok, _ := ms[ti].render(v2, d.m, dumpOf(d.d)); ok {
			if want != out {
				return failf("%s: template %q renders %q, expected %q; data: %v", c.Ver, c.Srcs[ti], out, want, d.m)
			}
			if st["loop"] > 0 {
				loops++
			}
		}
		if op[2] == 1 {
			// a template that holds nothing, or only declarations made by the program
			t := ver.NewTmpl()
			none := t.Execute(d.d)
			if op[0] == 1 {
				sub, err := ver.TmplFromString(string(c.Srcs[ti]))
				if err != nil {
					return failf("%s: %q refused the second time: %v", c.Ver, c.Srcs[ti], err)
				}
				t.AddTemplate("a", sub)
			}
			if o := t.Execute(d.d); o != none {
				return failf("%s: a template never loaded renders %q, then %q", c.Ver, none, o)
			}
			if v2 {
				if o := t.Clone().Execute(d.d); o != none {
					return failf("%s: a template never loaded renders %q, its clone %q", c.Ver, none, o)
				}
			}
			r.Label("never loaded")
		}
		if op[2] == 0 {
			// a sub-template on its own
			for _, n := range tmplNames {
				if s := ts[ti].GetTemplate(n); s != nil {
					k := key + n
					o := s.Execute(d.d)
					if was, ok := first[k]; ok && was != o {
						return failf("%s: sub-template %q of %q rendered twice with the same data: first %q then %q", c.Ver, n, c.Srcs[ti], was, o)
					}
					first[k] = o
				}
			}
		}
		for i, x := range ds {
			if x.d == nil {
				continue
			}
			if now := x.d.GoString() + "\n" + x.d.String(); now != x.print {
				return failf("%s: rendering %q with data set %d changed data set %d\nfrom %s\nto   %s", c.Ver, c.Srcs[ti], di, i, x.print, now)
			}
		}
	}
	r.Label("%s", c.Ver)
	if nils > 0 {
		r.Label("no data")
	}
	if repeats > 0 {
		r.Label("repeated")
	}
	if repeats > 0 && (loops > 0 || nils > 0) {
		r.NonTrivial()
	}
	return nil
}

func dumpOf(d DS) string {
	if d == nil {
		return ""
	}
	return d.GoString()
}

// --- C33: printed forms of templates ------------------------------------------------

// PrintTmplCase prints a template.
type PrintTmplCase struct {
	Ver  string `json:"ver"`
	Srcs []S    `json:"srcs"`
	Data *Val   `json:"data"`
	Ops  []int  `json:"ops"` // what happens between the prints
}

func genPrintTmpl(t *rapid.T) *PrintTmplCase {
	c := &PrintTmplCase{Ver: genVer(t)}
	c.Data = genData(t, c.Ver, 2)
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		cfg := tmplCfg{depth: 3, parts: 6, decl: 2, variant: 20, breaks: true, values: []string{"a"}, w: [12]int{3, 1, 4, 4, 4, 4, 4, 4, 2, 2, 2, 0}}
		if chance(t, 20) {
			cfg.w = [12]int{3, 10, 2, 1, 0, 0, 0, 0, 1, 5, 0, 2}
		}
		c.Srcs = append(c.Srcs, S(balance(newTmplGen(t, &cfg, c.Ver == "v2", c.Data).body(-1, 3, nil), c.Ver == "v2")))
	}
	for i, n := 0, intn(t, 6); i < n; i++ {
		c.Ops = append(c.Ops, intn(t, 6))
	}
	return c
}

func runPrintTmpl(r *R, c *PrintTmplCase) error {
	ver := verOf(c.Ver)
	v2 := ver.IsV2()
	data, mdat := buildDS(ver, c.Data)
	empty := ver.NewTmpl()
	e1, e2 := empty.String(), empty.GoString()
	for _, src := range c.Srcs {
		m, merr, vague := parseModel(string(src), v2)
		if vague || merr != nil || m.recursive(v2, mdat) {
			return errDiscard
		}
		t, err := ver.TmplFromString(string(src))
		if err != nil {
			return errDiscard
		}
		t0, err := ver.TmplFromString(string(src))
		if err != nil {
			return failf("%s: %q refused the second time: %v", c.Ver, src, err)
		}
		s, g := t.String(), t.GoString()
		if a, b := t0.Execute(data), t.Execute(data); a != b {
			return failf("%s: template %q renders %q, after it was printed %q", c.Ver, src, a, b)
		}
		if want := strings.Join(t.Elements("%v"), " "); !strings.Contains(s, want) {
			return failf("%s: template %q prints %q, its elements are %q", c.Ver, src, s, want)
		}
		if want := strings.Join(t.Elements("%#v"), " "); v2 && !strings.Contains(g, want) {
			return failf("%s: template %q prints %q (GoString), its elements are %q", c.Ver, src, g, want)
		}
		for _, p := range m.parts {
			if p.kind != pComment && !strings.Contains(s, p.data) {
				return failf("%s: template %q prints %q, without %q", c.Ver, src, s, p.data)
			}
		}
		again := func(t Tmpl, what string) error {
			if a, b := t.String(), t.GoString(); a != s || b != g {
				return failf("%s: template %q prints %q and %q, %s %q and %q", c.Ver, src, s, g, what, a, b)
			}
			return nil
		}
		for _, op := range c.Ops {
			var err error
			switch op {
			case 0:
				err = again(t, "the second time")
			case 1:
				t.Execute(data)
				err = again(t, "after rendering")
			case 2:
				t2, err2 := ver.TmplFromString(string(src))
				if err2 != nil {
					return failf("%s: %q refused the second time: %v", c.Ver, src, err2)
				}
				err = again(t2, "compiled again")
			case 3:
				if !v2 {
					continue
				}
				err = again(t.Clone(), "the clone")
			case 4:
				before := snapshot(t, data, 2)
				_, _ = t.String(), t.GoString()
				if d := diff(before, snapshot(t, data, 2)); d != "" {
					return failf("%s: printing the template %q changed it: %s", c.Ver, src, d)
				}
			case 5:
				if t.LoadString(string(src)+"[[a]]") == nil {
					return failf("%s: %q accepted", c.Ver, string(src)+"[[a]]")
				}
				err = again(t, "after a failed load")
			}
			if err != nil {
				return err
			}
			r.Label("op %d", op)
		}
		if len(c.Ops) > 1 && len(m.parts) > 1 {
			r.NonTrivial()
		}
	}
	if empty.String() != e1 || empty.GoString() != e2 {
		return failf("%s: a template that was never loaded prints differently", c.Ver)
	}
	r.Label("%s", c.Ver)
	return nil
}

// --- C10: template clones ----------------------------------------------------------

// CloneCase is a history on a template and its clones (v2).
type CloneCase struct {
	Src  S         `json:"src"`
	Data []*Val    `json:"data"`
	Ops  []CloneOp `json:"ops"`
}

// CloneOp is one step: clone, load, add, edit, sub (clone a sub-template).
type CloneOp struct {
	Op   string   `json:"op"`
	Obj  int      `json:"obj"`
	Path []string `json:"path,omitempty"`
	Name string   `json:"name,omitempty"`
	Src  S        `json:"src,omitempty"`
	Own  *S       `json:"own,omitempty"` // name the template has before it is added
}

func genClone(t *rapid.T) *CloneCase {
	c := &CloneCase{}
	for i := 0; i < 2; i++ {
		c.Data = append(c.Data, genData(t, "v2", 2))
	}
	cfg := tmplCfg{depth: 3, parts: 3, decl: 3, variant: 15, w: [12]int{3, 0, 2, 9, 2, 1, 2, 2, 0, 1, 0, 0}}
	gen := newTmplGen(t, &cfg, true, c.Data[0])
	c.Src = S(gen.body(-1, 3, nil))
	// names actually declared, so that paths lead somewhere
	m, _, _ := parseModel(string(c.Src), true)
	path := func() []string {
		var p []string
		x := m
		for k, n := 0, intn(t, 4); k < n && x != nil && len(x.subs) > 0; k++ {
			var names []string
			for _, tn := range tmplNames {
				if x.subs[tn] != nil {
					names = append(names, tn)
				}
			}
			if len(names) == 0 {
				break
			}
			nm := pick(t, names)
			p = append(p, nm)
			x = x.subs[nm]
		}
		return p
	}
	nobj := 1
	for i, n := 0, between(t, 1, 8); i < n; i++ {
		op := CloneOp{Obj: intn(t, nobj)}
		gen.n, gen.len = 1000*(i+1), 0
		w := weighted(t, []int{4, 4, 2, 1, 1})
		if i == 0 && chance(t, 80) {
			w = 0
		}
		switch w {
		case 0:
			op.Op = "clone"
			nobj++
		case 1:
			op.Op = "add"
			op.Own = ownName(t)
			op.Path = path()
			op.Name = pick(t, tmplNames)
			if chance(t, 60) && m != nil {
				x := m
				for _, p := range op.Path {
					x = x.subs[p]
				}
				var names []string
				for _, tn := range tmplNames {
					if x.subs[tn] != nil {
						names = append(names, tn)
					}
				}
				if len(names) > 0 {
					op.Name = pick(t, names) // replace an existing one
				}
			}
			op.Src = S(gen.body(rank(op.Name), 1, tmplNames))
		case 2:
			op.Op = "edit"
			op.Path = path()
		case 3:
			op.Op = "load"
			op.Path = path()
			r := -1
			if len(op.Path) > 0 {
				r = rank(op.Path[len(op.Path)-1])
			}
			op.Src = S(gen.body(r, 2, nil))
		case 4:
			op.Op = "sub"
			op.Path = path()
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type cloneObj struct {
	t     Tmpl
	m     *MTmpl
	fuzzy bool // content no longer defined by the model
	snap  [][]string
}

func runClone(r *R, c *CloneCase) error {
	ver := V2{}
	m, merr, vague := parseModel(string(c.Src), true)
	if vague || merr != nil {
		return errDiscard
	}
	t, err := ver.TmplFromString(string(c.Src))
	if err != nil {
		return errDiscard
	}
	var data []DS
	var mdat []*MDS
	for _, v := range c.Data {
		d, md := buildDS(ver, v)
		data, mdat = append(data, d), append(mdat, md)
	}
	if len(data) == 0 {
		return errDiscard
	}
	objs := []*cloneObj{{t: t, m: m}}
	recursive := func(o *cloneObj) bool {
		for _, md := range mdat {
			if o.m.recursive(true, md) {
				return true
			}
		}
		return false
	}
	snap := func(o *cloneObj) [][]string {
		var out [][]string
		for _, d := range data {
			out = append(out, snapshot(o.t, d, 2))
		}
		return out
	}
	if recursive(objs[0]) {
		return errDiscard
	}
	objs[0].snap = snap(objs[0])
	follow := func(o *cloneObj, path []string) (*MTmpl, Tmpl, bool, error) {
		mp, rp, shared := o.m, o.t, false
		for _, n := range path {
			s := mp.subs[n]
			if s == nil {
				break
			}
			rs := rp.GetTemplate(n)
			if rs == nil {
				return nil, nil, false, failf("GetTemplate(%q) finds nothing on a template declaring it (source %q)", n, c.Src)
			}
			mp, rp, shared = s, rs, shared || s.shared
		}
		return mp, rp, shared, nil
	}
	changedAfterClone := false
	for i, op := range c.Ops {
		o := objs[op.Obj%len(objs)]
		changed := o
		switch op.Op {
		case "clone":
			cl := &cloneObj{t: o.t.Clone(), m: o.m.clone(), fuzzy: o.fuzzy}
			if cl.t == nil {
				return failf("Clone returned nothing")
			}
			cl.snap = o.snap
			objs = append(objs, cl)
			changed = nil
		case "sub":
			mp, rp, _, err := follow(o, op.Path)
			if err != nil {
				return err
			}
			cl := rp.Clone()
			for k, d := range data {
				if a, b := rp.Execute(d), cl.Execute(d); a != b {
					return failf("the clone of the sub-template %v renders %q, the sub-template %q", op.Path, b, a)
				}
				if want, _, ok, _ := mp.render(true, mdat[k], dumpOf(d)); ok && !o.fuzzy {
					if got := cl.Execute(d); got != want {
						return failf("the clone of the sub-template %v renders %q, expected %q", op.Path, got, want)
					}
				}
			}
			changed = nil
			r.Label("sub clone")
		case "add":
			mp, rp, shared, err := follow(o, op.Path)
			if err != nil {
				return err
			}
			ms, merr, vague := parseModel(string(op.Src), true)
			if merr != nil || vague || shared {
				continue
			}
			rs, rerr := ver.TmplFromString(string(op.Src))
			if rerr != nil {
				continue
			}
			mp.add(op.Name, ms)
			if recursive(o) {
				return errDiscard
			}
			if op.Own != nil {
				rs.SetName(string(*op.Own))
			}
			rp.AddTemplate(op.Name, rs)
			r.Label("add at depth %d", len(op.Path))
		case "load":
			mp, rp, shared, err := follow(o, op.Path)
			if err != nil {
				return err
			}
			if _, merr, vague := parseModel(string(op.Src), true); merr != nil || vague || shared {
				continue
			}
			mp.parse(string(op.Src), true)
			if recursive(o) {
				return errDiscard
			}
			if err := rp.LoadString(string(op.Src)); err != nil {
				return failf("LoadString(%q): %v", op.Src, err)
			}
			o.fuzzy = true
		case "edit":
			mp, rp, shared, err := follow(o, op.Path)
			if err != nil {
				return err
			}
			if shared || o.fuzzy {
				continue
			}
			for k := range mp.parts {
				if mp.parts[k].kind == pText {
					mp.parts[k].data += "!"
				}
			}
			rp.EditParts(func(_, kind int, data string) string {
				if kind == 0 { // text
					return data + "!"
				}
				return data
			})
		default:
			continue
		}
		if changed != nil && len(objs) > 1 {
			changedAfterClone = true
		}
		for k, x := range objs {
			now := snap(x)
			for q := range now {
				if x != changed {
					if d := diff(x.snap[q], now[q]); d != "" {
						return failf("step %d (%s on object %d, path %v) changed what object %d renders: %s\nsource %q", i, op.Op, op.Obj%len(objs), op.Path, k, d, c.Src)
					}
				}
				if want, _, ok, _ := x.m.render(true, mdat[q], dumpOf(data[q])); ok && !x.fuzzy {
					if got := x.t.Execute(data[q]); got != want {
						return failf("step %d (%s on object %d, path %v): object %d renders %q, expected %q\nsource %q", i, op.Op, op.Obj%len(objs), op.Path, k, got, want, c.Src)
					}
				}
			}
			x.snap = now
		}
	}
	if changedAfterClone {
		r.NonTrivial()
	}
	r.Label("objects %d", len(objs))
	return nil
}

// --- C11: concurrent rendering ------------------------------------------------------

// ConcTmplCase renders and clones templates from several goroutines.
type ConcTmplCase struct {
	Ver  string  `json:"ver"`
	Src  S       `json:"src"`
	Data []*Val  `json:"data"`
	Lang []KVs   `json:"lang,omitempty"`
	Prog [][]int `json:"prog"` // per goroutine: data set number; 100+n: clone first
}

func genConcTmpl(t *rapid.T) *ConcTmplCase {
	c := &ConcTmplCase{Ver: pick(t, []string{"v2", "v2", "v1"})}
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		d := genData(t, c.Ver, 2)
		d.M = append(d.M, KV{S(pick(t, letters[:3])), genCollVal(t, tmplVals, 1)})
		c.Data = append(c.Data, d)
	}
	cfg := tmplCfg{depth: 2, parts: 5, decl: 3, variant: 30, w: [12]int{2, 0, 4, 4, 4, 2, 6, 4, 2, 1, 1, 0}}
	c.Src = S(newTmplGen(t, &cfg, c.Ver == "v2", c.Data[0]).body(-1, 2, nil))
	c.Lang = genLangTable(t)
	for i, n := 0, between(t, 2, 5); i < n; i++ {
		var p []int
		for k, m := 0, between(t, 1, 4); k < m; k++ {
			x := intn(t, 2)
			if c.Ver == "v2" && chance(t, 35) {
				x += 100
			}
			p = append(p, x)
		}
		c.Prog = append(c.Prog, p)
	}
	return c
}

func runConcTmpl(r *R, c *ConcTmplCase) error {
	ver := verOf(c.Ver)
	m, merr, vague := parseModel(string(c.Src), ver.IsV2())
	if merr != nil || vague || len(c.Data) == 0 {
		return errDiscard
	}
	var data []DS
	var want []string
	ref, err := ver.TmplFromString(string(c.Src)) // a separate template tells the expected output
	if err != nil {
		return errDiscard
	}
	for _, v := range c.Data {
		d, md := buildDS(ver, v)
		addLang(ver, d, md, c.Lang, 0)
		if m.recursive(ver.IsV2(), md) {
			return errDiscard
		}
		d2, md2 := buildDS(ver, v)
		addLang(ver, d2, md2, c.Lang, 0)
		data = append(data, d)
		want = append(want, ref.Execute(d2))
	}
	t, err := ver.TmplFromString(string(c.Src))
	if err != nil {
		return errDiscard
	}
	var wg sync.WaitGroup
	errs := make([]error, len(c.Prog))
	start := make(chan struct{})
	for g := range c.Prog {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[g] = &kindErr{"panic", fmt.Sprintf("panic: %v", x)}
				}
			}()
			<-start
			for _, op := range c.Prog[g] {
				x := t
				if op >= 100 && ver.IsV2() {
					x = t.Clone()
				}
				k := op % 100 % len(data)
				if got := x.Execute(data[k]); got != want[k] {
					errs[g] = failf("%s: rendered concurrently: %q, alone: %q (template %q)", c.Ver, got, want[k], c.Src)
					return
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	r.Label("%s", c.Ver)
	if len(c.Prog) > 1 && len(m.subs) > 0 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	Add(Part{Prop: "C08", Name: "loads", Quick: 100000, Rule: "the history has both an accepted and a rejected source"},
		func(t *rapid.T) *LoadCase {
			c := &LoadCase{Ver: genVer(t), First: intn(t, 2)}
			c.Data = genData(t, c.Ver, 1)
			for i, n := 0, between(t, 1, 4); i < n; i++ {
				c.Srcs = append(c.Srcs, S(genBracketSrc(t, c.Ver == "v2", c.Data)))
			}
			return c
		}, runLoad)

	Add(Part{Prop: "C09", Name: "pure", Quick: 24000, Rule: "a render was repeated with the same data, and a loop ran over records or there was no data set at all"},
		genPure, runPure)

	Add(Part{Prop: "C33", Name: "print", Quick: 60000, Rule: "a template of several elements is printed at least three times"},
		genPrintTmpl, runPrintTmpl)

	Add(Part{Prop: "C10", Name: "clones", Quick: 16000, Rule: "a template was modified while a clone of it, or its original, existed"},
		genClone, runClone)

	p := Add(Part{Prop: "C11", Name: "concurrent", Race: true, Stress: true, Reps: 3, Quick: 1500, Rule: "at least two goroutines work on a template with sub-templates"},
		genConcTmpl, runConcTmpl)
	WithShrink(p, func(c *ConcTmplCase) []*ConcTmplCase {
		var out []*ConcTmplCase
		for i := range c.Prog {
			d := *c
			d.Prog = append(append([][]int{}, c.Prog[:i]...), c.Prog[i+1:]...)
			out = append(out, &d)
		}
		for i, p := range c.Prog {
			if len(p) > 1 {
				d := *c
				d.Prog = append([][]int{}, c.Prog...)
				d.Prog[i] = p[:len(p)-1]
				out = append(out, &d)
			}
		}
		return out
	})
}
