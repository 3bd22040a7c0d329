package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"pgregory.net/rapid"
)

// --- C35: objects made separately ----------------------------------------------------------

// TwinOp modifies one of the objects.
type TwinOp struct {
	Who int    `json:"who"`
	Op  string `json:"op"`
	K   S      `json:"k,omitempty"`
	V   S      `json:"v,omitempty"`
	N   int    `json:"n,omitempty"`
}

// TwinCase makes several objects of one sort from the same input and works on them.
type TwinCase struct {
	Ver  string   `json:"ver"`
	Kind string   `json:"kind"` // tmpl text xml lang cache ds coll map
	How  []int    `json:"how"`  // per object, how it is made
	Src  S        `json:"src,omitempty"`
	Doc  *XDoc    `json:"doc,omitempty"`
	Data *Val     `json:"data,omitempty"`
	Ops  []TwinOp `json:"ops"`
}

func genTwins(t *rapid.T) *TwinCase {
	c := &TwinCase{Ver: genVer(t), Kind: pick(t, []string{"tmpl", "tmpl", "tmpl", "text", "xml", "lang", "cache", "ds", "coll", "map"})}
	if c.Kind == "map" {
		c.Ver = "v2"
	}
	for i, n := 0, between(t, 2, 3); i < n; i++ {
		c.How = append(c.How, intn(t, 4))
	}
	names := langKeys
	switch c.Kind {
	case "tmpl":
		c.Data = genData(t, c.Ver, 2)
		cfg := tmplCfg{depth: 3, parts: 3, decl: 3, variant: 15, w: [12]int{3, 0, 2, 9, 2, 1, 2, 2, 0, 1, 0, 0}}
		if !chance(t, 4) { // else an empty one
			c.Src = S(newTmplGen(t, &cfg, c.Ver == "v2", c.Data).body(-1, 3, nil))
		}
		names = tmplNames
	case "text":
		if !chance(t, 4) {
			c.Src = S(genFlatText(t))
		}
	case "xml":
		d := genDoc(t, 0)
		c.Doc = &d
	case "map":
		v := genDSVal(t, &valCfg{keys: letters[:4], scalars: scalarKinds, maxLen: 3, maxKeys: 4}, 2)
		c.Data = &v
		names = letters[:4]
	case "ds", "coll":
		names = letters[:4]
	}
	for i, n := 0, between(t, 1, 8); i < n; i++ {
		c.Ops = append(c.Ops, TwinOp{Who: intn(t, 4), Op: pick(t, twinOps[c.Kind]), K: S(pick(t, names)), V: S(fmt.Sprint("m", i)), N: intn(t, 6)})
	}
	return c
}

var twinOps = map[string][]string{
	"tmpl":  {"add", "add", "load", "subload", "edit", "subedit", "fail", "clone", "execute"},
	"text":  {"set", "set", "del", "status", "name", "lang", "text", "xml", "entries"},
	"xml":   {"set", "set", "del", "status", "name", "lang", "text", "xml", "entries"},
	"lang":  {"set", "set", "del", "status", "name", "lang", "text", "xml", "entries"},
	"cache": {"set", "set", "set", "del", "flush", "clean", "max", "valid"},
	"ds":    {"set", "set", "del", "nest", "clone"},
	"coll":  {"push", "push", "unshift", "pop", "shift", "setin", "clone"},
	"map":   {"set", "del", "nest", "inner", "inner", "clone"},
}

// twin is one of the objects, seen through what it shows and what can be done to it.
type twin struct {
	show func() []string
	do   func(op *TwinOp)
}

func runTwins(r *R, c *TwinCase) error {
	ver := verOf(c.Ver)
	if twinOps[c.Kind] == nil || len(c.How) == 0 || len(c.How) > 5 || c.Kind == "map" && c.Ver != "v2" {
		return errDiscard
	}
	var file string
	if c.Kind == "tmpl" || c.Kind == "text" || c.Kind == "xml" {
		src := string(c.Src)
		if c.Kind == "xml" {
			if c.Doc == nil || c.Doc.Fault != 0 || c.Doc.Style < 0 {
				return errDiscard
			}
			src = c.Doc.write()
		}
		for _, h := range c.How {
			if h%4 == 3 && file == "" { // from a file
				dir, err := os.MkdirTemp(scratch, "c35")
				if err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				defer os.RemoveAll(dir)
				file = filepath.Join(dir, "content")
				if err := os.WriteFile(file, []byte(src), 0644); err != nil {
					return fmt.Errorf("harness: %v", err)
				}
			}
		}
	}
	make1 := func(how int) (*twin, error) {
		switch c.Kind {
		case "tmpl":
			return c.tmplTwin(ver, how, file)
		case "text", "xml", "lang":
			return c.langTwin(ver, how, file)
		case "cache":
			return cacheTwin(ver), nil
		case "ds":
			return dsTwin(ver, ver.NewDS([]string{"", "t", "z", "t"}[how%4])), nil
		case "map":
			src, _ := source(c.Data, false)
			return dsTwin(ver, ver.FromMap(src.(map[string]interface{}))), nil
		}
		return collTwin(ver, ver.NewColl([]string{"", "t", "z", "t"}[how%4])), nil
	}
	if c.Kind == "tmpl" {
		if c.Data != nil && c.Data.K != "ds" {
			return errDiscard
		}
		m, merr, vague := parseModel(string(c.Src), ver.IsV2())
		if vague || merr != nil {
			return errDiscard
		}
		var md *MDS
		if c.Data != nil {
			_, md = buildDS(ver, c.Data)
		}
		if m.recursive(ver.IsV2(), md) {
			return errDiscard
		}
	}
	if c.Kind == "map" && (c.Data == nil || c.Data.K != "ds") {
		return errDiscard
	}
	var twins []*twin
	var shown [][]string
	for _, h := range c.How {
		if h < 0 {
			return errDiscard
		}
		x, err := make1(h)
		if err != nil {
			return err
		}
		twins = append(twins, x)
		shown = append(shown, x.show())
	}
	first := shown[0]
	for i, s := range shown {
		if d := diff(first, s); d != "" && (c.How[i]%4 == c.How[0]%4 || c.Kind != "ds" && c.Kind != "coll") { // kinds print differently
			return failf("%s: two objects (%s) made from the same input differ: %s", c.Ver, c.Kind, d)
		}
		if d := diff(s, twins[i].show()); d != "" {
			return failf("%s: reading the object (%s) changed it: %s", c.Ver, c.Kind, d)
		}
	}
	changed := false
	for i := range c.Ops {
		op := &c.Ops[i]
		if op.N < 0 || op.Who < 0 {
			return errDiscard
		}
		w := op.Who % len(twins)
		twins[w].do(op)
		for j, x := range twins {
			s := x.show()
			if j == w {
				changed = changed || diff(shown[j], s) != ""
				shown[j] = s
			} else if d := diff(shown[j], s); d != "" {
				return failf("%s: step %d (%s %q on object %d) changed object %d (%s): %s", c.Ver, i, op.Op, op.K, w, j, c.Kind, d)
			}
		}
		r.Label("%s %s", c.Kind, op.Op)
	}
	// and one made now is as the first ones were
	x, err := make1(c.How[0])
	if err != nil {
		return err
	}
	if d := diff(first, x.show()); d != "" {
		return failf("%s: an object (%s) made from the same input after others were modified differs: %s", c.Ver, c.Kind, d)
	}
	r.Label("%s", c.Ver)
	if changed {
		r.NonTrivial()
	}
	return nil
}

func (c *TwinCase) tmplTwin(ver Ver, how int, file string) (*twin, error) {
	var t Tmpl
	var err error
	switch how % 4 {
	case 0, 1:
		t, err = ver.TmplFromString(string(c.Src))
	case 2:
		t = ver.NewTmpl()
		err = t.LoadString(string(c.Src))
	case 3:
		t, err = ver.TmplFromFile(file)
	}
	if err != nil {
		return nil, failf("%s: template %q refused: %v", c.Ver, c.Src, err)
	}
	var data DS
	if c.Data != nil {
		data, _ = buildDS(ver, c.Data)
	}
	// what is added holds texts and fields only, so that nothing becomes recursive
	body := func(op *TwinOp) string { return "<" + string(op.V) + "{{a}}>" }
	edit := func(t Tmpl, op *TwinOp) {
		t.EditParts(func(i, kind int, data string) string {
			if kind == 0 {
				return data + "+" + string(op.V)
			}
			return data
		})
	}
	return &twin{
		show: func() []string {
			return append(snapshot(t, data, 2), t.String(), t.GoString())
		},
		do: func(op *TwinOp) {
			switch op.Op {
			case "add":
				if s, err := ver.TmplFromString(body(op)); err == nil {
					t.AddTemplate(string(op.K), s)
				}
			case "load":
				t.LoadString(body(op) + "&&" + string(op.K) + "&&[[" + string(op.K) + "]]" + body(op) + "[[]]")
			case "subload":
				if s := t.GetTemplate(string(op.K)); s != nil {
					s.LoadString(body(op))
				}
			case "edit":
				edit(t, op)
			case "subedit":
				if s := t.GetTemplate(string(op.K)); s != nil {
					edit(s, op)
				}
			case "fail":
				t.LoadString(body(op) + "[[" + string(op.K) + "]]")
			case "clone":
				if cl := t.Clone(); cl != nil {
					edit(cl, op)
				}
			case "execute":
				t.Execute(data)
			}
		},
	}, nil
}

func (c *TwinCase) langTwin(ver Ver, how int, file string) (*twin, error) {
	var l Lang
	var err error
	switch c.Kind {
	case "lang":
		l = ver.NewLang("table", "en")
	case "text":
		switch how % 4 {
		case 0, 1:
			l, err = ver.LangFromString(string(c.Src))
		case 2:
			l, err = ver.LangFromString("")
			if err == nil {
				err = l.LoadString(string(c.Src))
			}
		case 3:
			l, err = ver.LangFromFile(file)
		}
	case "xml":
		switch how % 4 {
		case 0, 1:
			l, err = ver.LangFromXMLString(c.Doc.write())
		case 2:
			l = ver.NewLang("other", "fr")
			err = l.LoadXMLString(c.Doc.write())
		case 3:
			l, err = ver.LangFromXMLFile(file)
		}
	}
	if err != nil || l == nil {
		return nil, failf("%s: table (%s) refused: %v", c.Ver, c.Kind, err)
	}
	return &twin{
		show: func() []string {
			out := []string{"name " + l.GetName(), "language " + l.GetLanguage(), "print " + l.String()}
			var es []string
			for k, v := range l.Entries() {
				es = append(es, k+" = "+v+" "+l.Get(k)+" "+l.GetStatus(k))
			}
			sort.Strings(es)
			for _, k := range langKeys {
				out = append(out, k+": "+l.Get(k)+" "+l.GetStatus(k))
			}
			return append(out, es...)
		},
		do: func(op *TwinOp) {
			k, v := string(op.K), string(op.V)
			switch op.Op {
			case "set":
				l.Set(k, v)
			case "del":
				l.Del(k)
			case "status":
				l.SetStatus(k, v)
			case "name":
				l.SetName(v)
			case "lang":
				l.SetLanguage(langTags[op.N%len(langTags)])
			case "text":
				l.LoadString("a=" + v + "\nb=" + v + "\n")
			case "xml":
				l.LoadXMLString("<language id=\"" + v + "\" lang=\"pt-BR\"><entry id=\"a\" status=\"" + v + "\">" + v + "</entry></language>")
			case "entries":
				e := l.Entries()
				e["a"], e[v] = v, v
				delete(e, "b")
			}
		},
	}, nil
}

func refuseAll(string, time.Time) bool { return false }

func cacheTwin(ver Ver) *twin {
	ca := ver.NewCache(0, 0)
	return &twin{
		show: func() []string {
			var out []string
			for _, k := range langKeys {
				v, _ := ca.Get(k) // a refused entry is reported once
				out = append(out, fmt.Sprint(k, ": ", v))
			}
			return append(out, fmt.Sprint("count ", ca.Count()))
		},
		do: func(op *TwinOp) {
			k := string(op.K)
			switch op.Op {
			case "set":
				ca.Set(k, string(op.V))
			case "del":
				ca.Del(k)
			case "flush":
				ca.Flush()
			case "clean":
				ca.Clean(op.N * 20)
			case "max":
				ca.SetMax(op.N)
			case "valid":
				ca.SetValidator(refuseAll)
			}
		},
	}
}

func dsTwin(ver Ver, d DS) *twin {
	return &twin{
		show: func() []string {
			out := []string{d.String(), d.GoString()}
			for _, k := range letters {
				s, ok := d.GetString(k)
				out = append(out, fmt.Sprint(k, ": ", s, ok))
			}
			return out
		},
		do: func(op *TwinOp) {
			k := string(op.K)
			switch op.Op {
			case "set":
				d.Set(k, string(op.V))
			case "del":
				d.Del(k)
			case "nest":
				n := ver.NewDS([]string{"", "t", "z"}[op.N%3])
				n.Set("x", string(op.V))
				d.Set(k, n.Raw())
			case "inner":
				if n, ok := d.GetDataset(k); ok {
					n.Set("x", string(op.V))
				}
				if l, ok := d.GetCollection(k); ok {
					if n, ok := l.Get(op.N); ok {
						n.Set("x", string(op.V))
					}
					l.Push(ver.NewDS(""))
				}
			case "clone":
				d.Clone().Set(k, string(op.V))
			}
		},
	}
}

func collTwin(ver Ver, l Coll) *twin {
	return &twin{
		show: func() []string {
			out := []string{fmt.Sprint("count ", l.Count()), l.String(), l.GoString()}
			for i := 0; i <= l.Count(); i++ {
				d, ok := l.Get(i)
				s := ""
				if ok {
					s = d.String()
				}
				out = append(out, fmt.Sprint(i, ": ", s, ok))
			}
			return out
		},
		do: func(op *TwinOp) {
			n := ver.NewDS([]string{"", "t", "z"}[op.N%3])
			n.Set(string(op.K), string(op.V))
			switch op.Op {
			case "push":
				l.Push(n)
			case "unshift":
				l.Unshift(n)
			case "pop":
				if l.Count() > 0 {
					l.Pop()
				}
			case "shift":
				if l.Count() > 0 {
					l.Shift()
				}
			case "setin":
				if d, ok := l.Get(op.N); ok {
					d.Set(string(op.K), string(op.V))
				}
			case "clone":
				l.Clone().Push(n)
			}
		},
	}
}

func init() {
	Add(Part{Prop: "C35", Name: "twins", Quick: 60000, Rule: "one of the objects visibly changed while another one made from the same input existed"},
		genTwins, runTwins)
}
