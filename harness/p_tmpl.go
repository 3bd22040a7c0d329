package harness

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// TmplCase renders one template with one data set.
type TmplCase struct {
	Ver  string `json:"ver"`
	Src  S      `json:"src"`
	Data *Val   `json:"data"` // nil: no data at all
	Lang []KVs  `json:"lang"` // language table stored under "#", nil: none
	NoL  int    `json:"nolang,omitempty"`
	Adds []Add1 `json:"adds,omitempty"`
}

// KVs is an entry of a table of strings.
type KVs struct {
	K S `json:"k"`
	V S `json:"v"`
}

// Add1 adds a compiled template by the API: to the sub-template reached from the root
// by the names in Path.
type Add1 struct {
	Path []string `json:"path"`
	Name string   `json:"name"`
	Src  S        `json:"src"`
	Own  *S       `json:"own,omitempty"` // name the template has before it is added
}

var tmplScalars = []string{"string", "int", "nil", "bool", "string", "float64", "stringer", "string"}

var tmplKeys = func() (l []string) {
	for i := 0; i < 12; i++ {
		l = append(l, letters...)
	}
	return append(append(l, oddNames...), dictTags...)
}()

var tmplVals = &valCfg{keys: append([]string{"a b", "é", "A/b"}, tmplKeys...), scalars: tmplScalars, ts: 0, maxLen: 4, maxKeys: 5, user: 3, wide: 1}
var tmplValsTS = &valCfg{keys: tmplKeys, scalars: tmplScalars, ts: 25, maxLen: 4, maxKeys: 5, user: 3, wide: 1}

func genVer(t *rapid.T) string { return pick(t, []string{"v2", "v1"}) }

func genData(t *rapid.T, ver string, depth int) *Val {
	c := tmplVals
	if ver == "v2" {
		c = tmplValsTS
	}
	d := genDSVal(t, c, depth)
	// make the first levels well populated
	for i, n := 0, between(t, 1, 5); i < n; i++ {
		d.M = append(d.M, KV{S(pick(t, letters)), genVal(t, c, depth)})
	}
	return &d
}

func genLangTable(t *rapid.T) []KVs {
	l := []KVs{}
	for i, n := 0, intn(t, 6); i < n; i++ {
		l = append(l, KVs{S(orTag(t, 4, pick(t, langIDs))), S(genString(t))})
	}
	return l
}

// innerLangs puts language tables into some of the nested data sets: only the one of the
// outermost data set translates.
func innerLangs(t *rapid.T, v *Val, top bool, pct int) {
	if v == nil {
		return
	}
	for i := range v.M {
		innerLangs(t, &v.M[i].V, false, pct)
	}
	for i := range v.L {
		innerLangs(t, &v.L[i], false, pct)
	}
	if v.K == "ds" && !top && chance(t, pct) {
		v.M = append(v.M, KV{"#", genLangVal(t)})
	}
}

// ownName gives a name that a template made in the program has before it is added.
func ownName(t *rapid.T) *S {
	if !chance(t, 40) {
		return nil
	}
	s := S(pick(t, []string{"a", "a", "b", "m", "", "x y", "a|b"}))
	return &s
}

// caseGen makes the generator of a rendering part from its template configuration.
func caseGen(cfg tmplCfg, lang int, adds bool) func(t *rapid.T) *TmplCase {
	return func(t *rapid.T) *TmplCase {
		c := &TmplCase{Ver: genVer(t)}
		cf := cfg
		if chance(t, 4) {
			cf.depth, cf.decl = cf.depth+4, 2
		}
		c.Data = genData(t, c.Ver, 3)
		gen := newTmplGen(t, &cf, c.Ver == "v2", c.Data)
		c.Src = S(gen.body(-1, cf.depth, nil))
		if lang > 0 && chance(t, lang) {
			c.Lang = genLangTable(t)
		} else if lang > 0 {
			c.NoL = intn(t, 3)
		}
		if lang > 0 && chance(t, 50) {
			innerLangs(t, c.Data, true, 40)
		}
		if adds {
			for i, n := 0, intn(t, 4); i < n; i++ {
				a := Add1{Name: pick(t, tmplNames)}
				for k, m := 0, intn(t, 3); k < m; k++ {
					a.Path = append(a.Path, pick(t, tmplNames))
				}
				if chance(t, 20) {
					a.Name += "." + pick(t, []string{"first", "none", "last", "x"})
				}
				gen.n, gen.len = 900+20*i, 0
				a.Src = S(gen.body(rank(a.Name), 1, tmplNames))
				a.Own = ownName(t)
				c.Adds = append(c.Adds, a)
			}
		}
		return c
	}
}

// world is a built case.
type tmplWorld struct {
	ver  Ver
	mt   *MTmpl
	rt   Tmpl
	data DS
	mdat *MDS
}

// prepare builds model and real template and data; ok is false if the case is outside
// the defined domain.
func (c *TmplCase) prepare() (w *tmplWorld, ok bool, err error) {
	ver := verOf(c.Ver)
	w = &tmplWorld{ver: ver}
	mt, merr, vague := parseModel(string(c.Src), ver.IsV2())
	if vague {
		return nil, false, nil
	}
	rt, rerr := ver.TmplFromString(string(c.Src))
	if (merr != nil) != (rerr != nil) {
		return nil, true, failf("source %q: expected error: %v, got error: %v", c.Src, merr != nil, rerr)
	}
	if merr != nil {
		if rt != nil {
			return nil, true, failf("source %q: error %v but also a template", c.Src, rerr)
		}
		return nil, false, nil
	}
	if rt == nil {
		return nil, true, failf("source %q: no template and no error", c.Src)
	}
	w.mt, w.rt = mt, rt
	if c.Data != nil {
		w.data, w.mdat = buildDS(ver, c.Data)
		addLang(ver, w.data, w.mdat, c.Lang, c.NoL)
	}
	for _, a := range c.Adds {
		mp, rp := w.mt, w.rt
		for _, n := range a.Path {
			s := mp.subs[n]
			if s == nil {
				break
			}
			r := rp.GetTemplate(n)
			if r == nil {
				return nil, true, failf("source %q: GetTemplate(%q) found nothing", c.Src, n)
			}
			mp, rp = s, r
		}
		ms, merr, vague := parseModel(string(a.Src), ver.IsV2())
		if vague || merr != nil {
			return nil, false, nil
		}
		rs, rerr := ver.TmplFromString(string(a.Src))
		if rerr != nil {
			return nil, true, failf("source %q: unexpected error %v", a.Src, rerr)
		}
		if a.Own != nil {
			rs.SetName(string(*a.Own))
		}
		mp.add(a.Name, ms)
		rp.AddTemplate(a.Name, rs)
	}
	return w, true, nil
}

func addLang(ver Ver, d DS, m *MDS, tab []KVs, no int) {
	if tab != nil {
		l := ver.NewLang("l", "en")
		ml := &MLang{M: map[string]string{}, real: l}
		for _, e := range tab {
			l.Set(string(e.K), string(e.V))
			ml.M[string(e.K)] = string(e.V)
		}
		d.Set("#", l)
		m.M["#"] = ml
		return
	}
	switch no {
	case 1:
		d.Set("#", "text")
		m.M["#"] = "text"
	case 2:
		d.Set("#", nil)
		m.M["#"] = nil
	}
}

// expected gives the reference rendering.
func (w *tmplWorld) expected() (string, map[string]int, bool, string) {
	dump := ""
	if w.data != nil {
		dump = w.data.GoString()
	}
	return w.mt.render(w.ver.IsV2(), w.mdat, dump)
}

// renderCheck is the oracle of the rendering parts.
func renderCheck(nontrivial func(st map[string]int, out string) bool) func(r *R, c *TmplCase) error {
	return func(r *R, c *TmplCase) error {
		w, ok, err := c.prepare()
		if err != nil {
			return err
		}
		if !ok {
			r.Label("outside: source")
			return errDiscard
		}
		want, st, ok, why := w.expected()
		if !ok {
			r.Label("outside: %s", why)
			return errDiscard
		}
		got := w.rt.Execute(w.data)
		if got != want {
			return failf("%s: template %q renders\n  %q\nexpected\n  %q\ndata: %v", c.Ver, c.Src, got, want, w.mdat)
		}
		r.Label("%s", c.Ver)
		for k := range st {
			r.Label("%s", k)
		}
		if nontrivial(st, got) {
			r.NonTrivial()
		}
		return nil
	}
}

func has(st map[string]int, keys ...string) bool {
	for _, k := range keys {
		if st[k] == 0 {
			return false
		}
	}
	return true
}

func init() {
	base := tmplCfg{depth: 3, parts: 5, decl: 3, variant: 30}
	with := func(f func(c *tmplCfg)) tmplCfg { c := base; f(&c); return c }

	// weights: text, noise, field, ref, ref-level, ref-indirect, loop, cond, lang, comment, dump, declaration
	Add(Part{Prop: "C01", Name: "text", Quick: 100000, Rule: "the rendered output is not empty and the source holds a comment, a sub-template or at least 3 tag-like delimiters"},
		func(t *rapid.T) *TmplCase {
			cfg := tmplCfg{depth: 2, parts: 7, decl: 2, variant: 10, breaks: true, w: [12]int{3, 10, 2, 1, 0, 0, 0, 0, 1, 5, 0, 2}}
			c := caseGen(cfg, 50, false)(t)
			c.Src = S(balance(string(c.Src), c.Ver == "v2"))
			if chance(t, 8) {
				c.Src += S(orWord(t, 20, pick(t, endsText), nil))
			}
			if chance(t, 8) {
				c.Src = S(orWord(t, 20, pick(t, endsText), nil)) + c.Src
			}
			return c
		},
		func(r *R, c *TmplCase) error {
			return renderCheck(func(st map[string]int, out string) bool {
				n := 0
				for _, d := range []string{"{{", "}}", "&&", "@@", "??", "!!", "##", "%--", "--%", "[[", "]]"} {
					n += strings.Count(string(c.Src), d)
				}
				return out != "" && (st["comment"] > 0 || n >= 3)
			})(r, c)
		})

	Add(Part{Prop: "C02", Name: "fields", Quick: 80000, Rule: "a field with a path or below the root level was found, and one was found on an outer level or not at all"},
		caseGen(with(func(c *tmplCfg) { c.w = [12]int{1, 0, 14, 1, 5, 1, 4, 2, 0, 0, 0, 1} }), 0, false),
		renderCheck(func(st map[string]int, out string) bool {
			return (has(st, "path") || has(st, "found-inner")) && (has(st, "found-outer") || has(st, "found-none"))
		}))

	Add(Part{Prop: "C03", Name: "loops", Quick: 80000, Rule: "a loop over at least two records ran and a variant (.key, .first, .last, .even, .none) was chosen"},
		loopGen,
		renderCheck(func(st map[string]int, out string) bool {
			return has(st, "loop-many") && (has(st, "loop.key.") || has(st, "loop.first") || has(st, "loop.last") || has(st, "loop.even") || has(st, "loop-none"))
		}))

	Add(Part{Prop: "C04", Name: "conditions", Quick: 120000, Rule: "a condition was met and another one was not, or a variant (.value, .none) was chosen"},
		condGen,
		renderCheck(func(st map[string]int, out string) bool {
			return has(st, "cond-met", "cond-nothing") || has(st, "cond-value") || has(st, "cond-none") || has(st, "cond-ds")
		}))

	Add(Part{Prop: "C05", Name: "references", Quick: 120000, Rule: "a reference with a data level or an indirect name was resolved"},
		refGen,
		renderCheck(func(st map[string]int, out string) bool {
			return has(st, "ref-level") || has(st, "ref-indirect") || has(st, "ref-indirect-default")
		}))

	Add(Part{Prop: "C06", Name: "visibility", Quick: 80000, Rule: "a name was resolved to a declaration in an enclosing template, or a template was added by the API, and at least two references were resolved"},
		caseGen(with(func(c *tmplCfg) {
			c.depth = 4
			c.parts = 3
			c.decl = 3
			c.w = [12]int{1, 0, 1, 12, 2, 1, 1, 1, 0, 0, 0, 4}
		}), 0, true),
		func(r *R, c *TmplCase) error {
			return renderCheck(func(st map[string]int, out string) bool {
				return st["ref"] >= 2 && (has(st, "find-outer") || len(c.Adds) > 0 || c.Ver == "v1")
			})(r, c)
		})

	Add(Part{Prop: "C07", Name: "language", Quick: 100000, Rule: "an existing entry was rendered below the top level of the template, or a missing one"},
		caseGen(with(func(c *tmplCfg) { c.w = [12]int{1, 0, 2, 4, 3, 1, 4, 3, 10, 0, 0, 1} }), 75, false),
		renderCheck(func(st map[string]int, out string) bool {
			return has(st, "lang-nested") || has(st, "lang-hit", "lang-miss")
		}))
}

// loopGen is the generator for loops: besides the general one, a focused shape with one
// collection and a subset of declared variants.
func loopGen(t *rapid.T) *TmplCase {
	if chance(t, 40) {
		return caseGen(tmplCfg{depth: 3, parts: 4, decl: 3, variant: 50, w: [12]int{1, 0, 4, 1, 2, 0, 14, 2, 0, 0, 0, 1}}, 0, false)(t)
	}
	c := &TmplCase{Ver: genVer(t)}
	vc := *tmplVals
	if c.Ver == "v2" {
		vc = *tmplValsTS
	}
	d := genDSVal(t, &vc, 1)
	vc.maxLen = 6
	if chance(t, 10) {
		vc.maxLen, vc.maxKeys = 24, 2
	}
	vc.wide = 3
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		if chance(t, 85) {
			d.M = append(d.M, KV{S(pick(t, letters[:3])), genCollVal(t, &vc, 1)})
		} else {
			d.M = append(d.M, KV{S(pick(t, letters[:3])), genVal(t, &vc, 1)})
		}
	}
	c.Data = &d
	var b strings.Builder
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		b.WriteString("(@@" + pick(t, letters[:4]) + ":" + pick(t, []string{"x", "y"}) + "@@)")
	}
	for _, name := range []string{"x", "y"} {
		far := 50
		if chance(t, 20) {
			far = 300
		}
		for _, suf := range []string{"", ".none", ".first", ".last", ".even", ".key.0", ".key.1", ".key.2", ".key.5", ".key.10", ".key.12", ".key.20", ".key." + strconv.Itoa(between(t, 3, far))} {
			p := 30
			if suf == "" {
				p = 90
			} else if suf == ".none" {
				p = 80
			}
			if !chance(t, p) {
				continue
			}
			inner := ""
			if name == "x" && chance(t, 40) {
				inner = "@@" + pick(t, letters[:4]) + ":y@@"
			}
			body := suf + "{{.counter}}" + "{{" + pick(t, letters[:4]) + "}}" + inner + "{{.counter}};"
			if chance(t, 15) {
				body = pick(t, []string{"", inner, "{{" + pick(t, letters[:4]) + "}}"})
			}
			b.WriteString("[[" + name + suf + "]]" + body + "[[]]")
		}
	}
	b.WriteString("{{.counter}}{{a}}")
	c.Src = S(b.String())
	return c
}

// nearValues are the value of a variant, or nearly.
var nearValues = []string{"a", "x", "A", "X", " a", "a ", " x", "x\n", "\ta", "True", "true", "TRUE", "false ", "01", "1", "+1", "1.0", "0", "-0", "0.0", "00", "1e0", "a.", ".a", "none", "None", "array",
	"first", "aa", "a\x00", "<nil>", " ", "\n", "\x00", "á", "a>b", "a:b", "a|x", "[]", "map[]"}

func condGen(t *rapid.T) *TmplCase {
	if chance(t, 40) {
		return caseGen(tmplCfg{depth: 3, parts: 4, decl: 3, variant: 50, values: []string{"a", "x", "none", "nil"}, w: [12]int{1, 0, 3, 1, 2, 0, 2, 14, 0, 0, 0, 1}}, 0, false)(t)
	}
	c := &TmplCase{Ver: genVer(t)}
	vc := &valCfg{keys: letters[:4], scalars: []string{"string", "nil", "int", "bool", "float64", "stringer", "strings", "uint8", "time", "float32", "struct", "error", "ints"}, maxLen: 2, maxKeys: 4}
	if c.Ver == "v2" {
		vc.ts = 20
	}
	d := genDSVal(t, vc, 2)
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		d.M = append(d.M, KV{S(pick(t, letters[:4])), genVal(t, vc, 2)})
	}
	if chance(t, 40) {
		d.M = append(d.M, KV{S(pick(t, letters[:4])), Val{K: "string", S: S(pick(t, nearValues))}})
	}
	c.Data = &d
	var b strings.Builder
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		p := pick(t, letters[:4])
		if chance(t, 25) {
			p += ">" + pick(t, []string{"a", "b", "0", "1", "0>a"})
		}
		if chance(t, 20) {
			b.WriteString("(??" + pick(t, []string{"c", "d"}) + "??)")
		}
		b.WriteString("(??" + p + ":" + pick(t, []string{"x", "y"}) + "??)")
	}
	for _, name := range []string{"x", "y", "c", "d"} {
		for _, suf := range []string{"", ".none", ".array", ".true", ".false", ".0", ".1", ".a", ".x", ".first"} {
			p := 20
			if suf == "" {
				p = 85
			} else if suf == ".none" {
				p = 40
			}
			if !chance(t, p) {
				continue
			}
			inner := ""
			if name == "x" && chance(t, 30) {
				inner = "??" + pick(t, letters[:4]) + ":y??"
			}
			body := name + suf + "{{" + pick(t, letters[:4]) + "}}" + inner + ";"
			if chance(t, 15) {
				body = pick(t, []string{"", inner, "{{" + pick(t, letters[:4]) + "}}"})
			}
			b.WriteString("[[" + name + suf + "]]" + body + "[[]]")
		}
	}
	b.WriteString("{{a}}{{b}}")
	c.Src = S(b.String())
	return c
}

func refGen(t *rapid.T) *TmplCase {
	if chance(t, 50) {
		return caseGen(tmplCfg{depth: 3, parts: 4, decl: 3, variant: 40, values: []string{"a", "x"}, w: [12]int{1, 0, 4, 4, 8, 6, 2, 2, 0, 0, 0, 1}}, 0, false)(t)
	}
	c := &TmplCase{Ver: genVer(t)}
	vc := &valCfg{keys: letters[:4], scalars: []string{"string", "int", "bool", "nil"}, maxLen: 2, maxKeys: 4}
	if c.Ver == "v2" {
		vc.ts = 20
	}
	d := genDSVal(t, vc, 2)
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		d.M = append(d.M, KV{S(pick(t, letters[:4])), genVal(t, vc, 2)})
	}
	if chance(t, 40) {
		d.M = append(d.M, KV{S(pick(t, letters[:4])), Val{K: "string", S: S(pick(t, nearValues))}})
	}
	c.Data = &d
	var b strings.Builder
	use := func(names []string) string {
		p := pick(t, letters[:4])
		if chance(t, 25) {
			p += ">" + pick(t, []string{"a", "b", "0", "1", "0>a"})
		}
		switch intn(t, 4) {
		case 0:
			return "&&" + pick(t, names) + "&&"
		case 1, 2:
			return "&&" + pick(t, names) + ":" + p + "&&"
		}
		return "&&:" + p + ":" + pick(t, names) + pick(t, []string{".", ".", ""}) + "&&"
	}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		b.WriteString("(" + use([]string{"x", "y", "w"}) + ")")
	}
	for _, name := range []string{"x", "y"} {
		for _, suf := range []string{"", ".", ".0", ".1", ".true", ".a", ".x", "a", "x", ".none"} {
			p := 25
			if suf == "" {
				p = 85
			} else if suf == "." {
				p = 40
			}
			if !chance(t, p) {
				continue
			}
			inner := ""
			if name == "x" && chance(t, 40) {
				inner = use([]string{"y", "w"})
			}
			body := name + suf + "{{" + pick(t, letters[:4]) + "}}" + inner + "{{" + pick(t, letters[:4]) + "}};"
			if chance(t, 25) {
				body = pick(t, []string{"", inner, "{{" + pick(t, letters[:4]) + "}}"})
			}
			b.WriteString("[[" + name + suf + "]]" + body + "[[]]")
		}
	}
	b.WriteString("{{a}}{{b}}")
	c.Src = S(b.String())
	return c
}
