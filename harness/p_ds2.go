package harness

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// --- C14 ------------------------------------------------------------------------------

// MapOp is a change on one side.
type MapOp struct {
	Src bool   `json:"src,omitempty"` // change the source, else the data set
	Op  string `json:"op"`
	H   int    `json:"h"`
	K   S      `json:"k,omitempty"`
	V   *Val   `json:"v,omitempty"`
	I   int    `json:"i,omitempty"`
}

// MapCase builds a data set (or collection) from nested maps.
type MapCase struct {
	Top Val     `json:"top"` // ds, or coll for NewXDatasetCollection; kind l: []interface{}
	Ops []MapOp `json:"ops"`
}

// source converts a description to maps, and to the model of what is built from it.
func source(v *Val, top bool) (interface{}, interface{}) {
	switch v.K {
	case "ds":
		m := map[string]interface{}{}
		d := &MDS{M: map[string]interface{}{}}
		for i := range v.M {
			k := cleanKey(v.M[i].K)
			m[k], d.M[k] = source(&v.M[i].V, false)
		}
		if len(m) == 0 && v.Kind == "n" {
			m = nil
		}
		return m, d
	case "coll":
		c := &MColl{}
		maps := []map[string]interface{}{}
		list := []interface{}{}
		for i := range v.L {
			if v.L[i].K != "ds" {
				continue
			}
			m, d := source(&v.L[i], false)
			maps = append(maps, m.(map[string]interface{}))
			list = append(list, m)
			c.L = append(c.L, d.(*MDS))
		}
		if v.Kind == "l" && !top && len(list) > 0 {
			return list, c
		}
		return maps, c
	}
	n := v.Native()
	return n, n
}

// connect links the model with what was built, checking its shape.
func connect(ver Ver, m, real interface{}, path string) error {
	switch x := m.(type) {
	case *MDS:
		d, ok := ver.IsDS(unwrap(real))
		if !ok {
			return failf("at %q: %s instead of a data set", path, show(real))
		}
		x.real = d
		for _, k := range sortedKeys(x.M) {
			v, ok := d.Get(k)
			if !ok {
				return failf("at %q: key %q is missing", path, k)
			}
			if err := connect(ver, x.M[k], v, path+">"+k); err != nil {
				return err
			}
		}
	case *MColl:
		c, ok := ver.IsColl(unwrap(real))
		if !ok {
			return failf("at %q: %s instead of a collection", path, show(real))
		}
		x.real = c
		if c.Count() != len(x.L) {
			return failf("at %q: %d records instead of %d", path, c.Count(), len(x.L))
		}
		for i := range x.L {
			d, ok := c.Get(i)
			if !ok {
				return failf("at %q: record %d is missing", path, i)
			}
			if err := connect(ver, x.L[i], d, fmt.Sprintf("%s>%d", path, i)); err != nil {
				return err
			}
		}
	}
	return nil
}

// srcNodes lists the maps and slices of a source in a fixed order.
func srcNodes(v interface{}, maps *[]map[string]interface{}, lists *[]interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		if x == nil {
			return
		}
		*maps = append(*maps, x)
		for _, k := range sortedKeys(x) {
			srcNodes(x[k], maps, lists)
		}
	case []map[string]interface{}:
		*lists = append(*lists, x)
		for _, y := range x {
			srcNodes(y, maps, lists)
		}
	case []interface{}:
		*lists = append(*lists, x)
		for _, y := range x {
			srcNodes(y, maps, lists)
		}
	}
}

func genMaps(t *rapid.T) *MapCase {
	c := &MapCase{}
	cfg := &valCfg{keys: dsKeys, scalars: moreKinds, maxLen: 3, maxKeys: 5, wide: 2}
	if chance(t, 20) {
		c.Top = genCollVal(t, cfg, 3)
	} else {
		c.Top = genDSVal(t, cfg, 3)
		c.Top.M = append(c.Top.M, KV{S(pick(t, dsKeys)), genCollVal(t, cfg, 2)})
	}
	var kinds func(v *Val)
	kinds = func(v *Val) {
		if v.K == "coll" && chance(t, 50) {
			v.Kind = "l"
		}
		if v.K == "ds" && len(v.M) == 0 && chance(t, 30) {
			v.Kind = "n"
		}
		for i := range v.M {
			kinds(&v.M[i].V)
		}
		for i := range v.L {
			kinds(&v.L[i])
		}
	}
	kinds(&c.Top)
	for i, n := 0, intn(t, 9); i < n; i++ {
		op := MapOp{Src: chance(t, 55), H: intn(t, 12), K: S(pick(t, dsKeys)), I: intn(t, 3)}
		v := genVal(t, cfg, 1)
		op.V = &v
		if op.Src {
			op.Op = pick(t, []string{"set", "set", "del", "elem"})
		} else {
			op.Op = pick(t, []string{"set", "set", "del", "push", "unshift", "pop", "shift"})
			if op.Op == "push" || op.Op == "unshift" {
				v = genDSVal(t, cfg, 0)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runMaps(r *R, c *MapCase) error {
	ver := V2{}
	if c.Top.K != "ds" && c.Top.K != "coll" {
		return errDiscard
	}
	src, model := source(&c.Top, true)
	want, _ := source(&c.Top, true)
	var maps, wmaps []map[string]interface{}
	var lists, wlists []interface{}
	srcNodes(src, &maps, &lists)
	srcNodes(want, &wmaps, &wlists)
	w := &dsWorld{ver: ver}
	var err error
	if c.Top.K == "ds" {
		err = connect(ver, model, ver.FromMap(src.(map[string]interface{})), "")
	} else {
		err = connect(ver, model, ver.FromMaps(src.([]map[string]interface{})), "")
	}
	if err != nil {
		return err
	}
	w.register(model)
	check := func(when string) error {
		if err := w.checkAll(); err != nil {
			return failf("%s: %v", when, err)
		}
		if !reflect.DeepEqual(src, want) {
			return failf("%s: the source map is\n%#v\nexpected\n%#v", when, src, want)
		}
		return nil
	}
	if err := check("after building"); err != nil {
		return err
	}
	onSrc, onDS := 0, 0
	for i := range c.Ops {
		op := &c.Ops[i]
		if !op.Src {
			ok, err := w.apply(&DSOp{Op: op.Op, H: op.H, K: op.K, V: op.V, H2: op.I})
			if err != nil {
				return err
			}
			if ok {
				onDS++
			}
		} else {
			k := cleanKey(op.K)
			switch op.Op {
			case "set":
				if len(maps) == 0 || op.V == nil {
					continue
				}
				maps[op.H%len(maps)][k], _ = source(op.V, false)
				wmaps[op.H%len(maps)][k], _ = source(op.V, false)
			case "del":
				if len(maps) == 0 {
					continue
				}
				delete(maps[op.H%len(maps)], k)
				delete(wmaps[op.H%len(maps)], k)
			case "elem":
				if len(lists) == 0 {
					continue
				}
				for _, l := range []interface{}{lists[op.H%len(lists)], wlists[op.H%len(lists)]} {
					m := map[string]interface{}{"new": 1}
					switch x := l.(type) {
					case []interface{}:
						if len(x) > 0 {
							x[op.I%len(x)] = m
						}
					case []map[string]interface{}:
						if len(x) > 0 {
							x[op.I%len(x)] = m
						}
					}
				}
			default:
				continue
			}
			onSrc++
		}
		if err := check(fmt.Sprintf("after step %d (%s, source: %v)", i, op.Op, op.Src)); err != nil {
			return err
		}
	}
	if onSrc > 0 {
		r.Label("source changed")
	}
	if onDS > 0 {
		r.Label("data set changed")
	}
	for _, l := range lists {
		r.Label("%T", l)
	}
	if len(maps) > 2 && onSrc+onDS > 0 {
		r.NonTrivial()
	}
	return nil
}

// --- C18 ------------------------------------------------------------------------------

// PairOp is a call made on a plain object and its thread safe counterpart.
type PairOp struct {
	Op   string `json:"op"`
	H    int    `json:"h"`
	K    S      `json:"k,omitempty"`
	V    *Val   `json:"v,omitempty"`
	Pair int    `json:"pair,omitempty"` // set/push: 1-based number of a pair to put in instead of a value
	I    int    `json:"i,omitempty"`
	N    int    `json:"n,omitempty"` // collections: how many times more
}

// PairCase compares plain and thread safe objects.
type PairCase struct {
	Kinds []string `json:"kinds"` // pairs: t, z: data sets; c: collections
	Ops   []PairOp `json:"ops"`
}

type pair struct {
	d, td DS
	c, tc Coll
}

type pairWorld struct {
	l      []*pair
	plain  map[interface{}]interface{} // thread safe object -> its plain counterpart
	cloned bool
}

func normTS(s string) string {
	return strings.ReplaceAll(s, "XDatasetCollectionTS[", "XDatasetCollection[")
}

// inClone tells whether two objects can be the ones nested in two clones, which have
// no other identity than their content.
func (w *pairWorld) inClone(a, b interface{}) bool {
	if _, ok := w.plain[b]; ok || !w.cloned {
		return false
	}
	for _, x := range w.plain {
		if x == a {
			return false
		}
	}
	return true
}

func (w *pairWorld) eq(a, b interface{}) bool {
	a, b = unwrap(a), unwrap(b)
	ver := V2{}
	if _, ok := ver.IsDS(a); ok {
		if x, ok := w.plain[b]; ok && x == a || a == b {
			return true
		}
		if _, ok := ver.IsDS(b); !ok || !w.inClone(a, b) {
			return false
		}
		return normTS(fmt.Sprintf("%#v", a)) == normTS(fmt.Sprintf("%#v", b))
	}
	if _, ok := ver.IsColl(a); ok {
		if x, ok := w.plain[b]; ok && x == a || a == b {
			return true
		}
		if _, ok := ver.IsColl(b); !ok || !w.inClone(a, b) {
			return false
		}
		return normTS(fmt.Sprintf("%#v", a)) == normTS(fmt.Sprintf("%#v", b))
	}
	return sameScalar(a, b)
}

var dsReads = []string{"Get", "GetDataset", "GetCollection", "GetString", "GetBool", "GetInt", "GetFloat", "GetTime",
	"GetStringCollection", "GetBoolCollection", "GetIntCollection", "GetFloatCollection", "GetTimeCollection"}

func dsRead(d DS, name, key string) (interface{}, bool) {
	switch name {
	case "Get":
		return d.Get(key)
	case "GetDataset":
		x, ok := d.GetDataset(key)
		if x == nil {
			return nil, ok
		}
		return x, ok
	case "GetCollection":
		x, ok := d.GetCollection(key)
		if x == nil {
			return nil, ok
		}
		return x, ok
	case "GetString":
		return first(d.GetString(key))
	case "GetBool":
		return first(d.GetBool(key))
	case "GetInt":
		return first(d.GetInt(key))
	case "GetFloat":
		return first(d.GetFloat(key))
	case "GetTime":
		return first(d.GetTime(key))
	case "GetStringCollection":
		return first(d.GetStringCollection(key))
	case "GetBoolCollection":
		return first(d.GetBoolCollection(key))
	case "GetIntCollection":
		return first(d.GetIntCollection(key))
	case "GetFloatCollection":
		return first(d.GetFloatCollection(key))
	case "GetTimeCollection":
		return first(d.GetTimeCollection(key))
	}
	panic("harness: " + name)
}

func first[T any](v T, ok bool) (interface{}, bool) { return v, ok }

var collReads = []string{"GetData", "GetDataString", "GetDataInt", "GetDataBool", "GetDataFloat", "GetDataTime", "GetCollection"}

func collRead(c Coll, name, key string) (interface{}, bool) {
	switch name {
	case "GetData":
		return c.GetData(key)
	case "GetDataString":
		return first(c.GetDataString(key))
	case "GetDataInt":
		return first(c.GetDataInt(key))
	case "GetDataBool":
		return first(c.GetDataBool(key))
	case "GetDataFloat":
		return first(c.GetDataFloat(key))
	case "GetDataTime":
		return first(c.GetDataTime(key))
	case "GetCollection":
		x, ok := c.GetCollection(key)
		if x == nil {
			return nil, ok
		}
		return x, ok
	}
	panic("harness: " + name)
}

// compare reads everything from both objects of a pair.
func (w *pairWorld) compare(p *pair, keys []string) error {
	bad := func(call string, a interface{}, aok bool, b interface{}, bok bool) error {
		return failf("%s: plain %s, %v; thread safe %s, %v", call, show(a), aok, show(b), bok)
	}
	if p.d != nil {
		for _, k := range keys {
			for _, name := range dsReads {
				a, aok := dsRead(p.d, name, k)
				b, bok := dsRead(p.td, name, k)
				if s, ok := a.(string); ok && name == "GetString" {
					a = normTS(s)
					b = normTS(b.(string))
				}
				if aok != bok || !w.eq(a, b) {
					return bad(fmt.Sprintf("%s(%q)", name, k), a, aok, b, bok)
				}
			}
		}
		if a, b := p.d.String(), p.td.String(); a != normTS(b) && normTS(a) != normTS(b) {
			return bad("String", a, true, b, true)
		}
		if a, b := p.d.GoString(), p.td.GoString(); normTS(a) != normTS(b) {
			return bad("GoString", a, true, b, true)
		}
		return nil
	}
	if a, b := p.c.Count(), p.tc.Count(); a != b {
		return bad("Count", a, true, b, true)
	}
	for i := -1; i <= p.c.Count()+1; i++ {
		a, aok := p.c.Get(i)
		b, bok := p.tc.Get(i)
		if aok != bok || (a == nil) != (b == nil) || (a != nil && !w.eq(a, b)) {
			return bad(fmt.Sprintf("Get(%d)", i), a, aok, b, bok)
		}
	}
	for _, k := range keys {
		for _, name := range collReads {
			a, aok := collRead(p.c, name, k)
			b, bok := collRead(p.tc, name, k)
			if s, ok := a.(string); ok && name == "GetDataString" {
				a = normTS(s)
				b = normTS(b.(string))
			}
			if aok != bok || !w.eq(a, b) {
				return bad(fmt.Sprintf("%s(%q)", name, k), a, aok, b, bok)
			}
		}
	}
	if a, b := p.c.String(), p.tc.String(); normTS(a) != normTS(b) {
		return bad("String", a, true, b, true)
	}
	if a, b := p.c.GoString(), p.tc.GoString(); normTS(a) != normTS(b) {
		return bad("GoString", a, true, b, true)
	}
	return nil
}

func genPairs(t *rapid.T) *PairCase {
	c := &PairCase{}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		c.Kinds = append(c.Kinds, pick(t, []string{"t", "z", "c"}))
	}
	cfg := dsCfg("v2", 25, false)
	cfg.maxKeys, cfg.maxLen = 4, 3
	for i, n := 0, between(t, 2, 14); i < n; i++ {
		op := PairOp{H: intn(t, 4), K: S(pick(t, dsKeys[:6])), I: intn(t, 3)}
		op.Op = pick(t, []string{"put", "put", "put", "put", "take", "take", "read", "clone"})
		if chance(t, 35) {
			op.Pair = 1 + intn(t, 4)
		}
		if chance(t, 15) {
			op.N = between(t, 1, 12)
		}
		v := genVal(t, cfg, 2)
		op.V = &v
		if op.Op == "read" {
			op.V = nil
			op.K = S(genPath(t, dsKeys[:6]))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runPairs(r *R, c *PairCase) error {
	ver := V2{}
	w := &pairWorld{plain: map[interface{}]interface{}{}}
	add := func(p *pair) {
		w.l = append(w.l, p)
		if p.d != nil {
			w.plain[p.td.Raw()] = p.d.Raw()
		} else {
			w.plain[p.tc.Raw()] = p.c.Raw()
		}
	}
	for _, k := range c.Kinds {
		switch k {
		case "t", "z":
			add(&pair{d: ver.NewDS(""), td: ver.NewDS(k)})
		case "c":
			add(&pair{c: ver.NewColl(""), tc: ver.NewColl("t")})
		default:
			return errDiscard
		}
	}
	if len(w.l) == 0 {
		return errDiscard
	}
	used := map[string]bool{}
	for i := range c.Ops {
		op := &c.Ops[i]
		if op.N < 0 || op.N > 10000 {
			return errDiscard
		}
		h := op.H % len(w.l)
		p := w.l[h]
		keys := append([]string{}, dsKeys[:6]...)
		// the value to put: the two objects of a later pair, or one value for both
		var a, b interface{}
		if op.Pair > 0 {
			if n := (op.Pair - 1) % len(w.l); n > h {
				q := w.l[n]
				if q.d != nil {
					a, b = q.d, q.td
				} else {
					a, b = q.c, q.tc
				}
			}
		}
		if a == nil && op.V != nil {
			a, _ = build(ver, op.V)
			b = a
		}
		switch op.Op {
		case "put":
			if p.d != nil {
				p.d.Set(cleanKey(op.K), a)
				p.td.Set(cleanKey(op.K), b)
				used["set"] = true
				break
			}
			for n := 0; n <= op.N; n++ {
				x, ok1 := a.(DS)
				y, ok2 := b.(DS)
				if !ok1 || !ok2 {
					break
				}
				if op.I == 0 {
					p.c.Unshift(x)
					p.tc.Unshift(y)
					used["unshift"] = true
				} else {
					p.c.Push(x)
					p.tc.Push(y)
					used["push"] = true
				}
				if op.V != nil { // another one of the same content
					a, _ = build(ver, op.V)
					b = a
				}
			}
		case "take":
			if p.d != nil {
				p.d.Del(cleanKey(op.K))
				p.td.Del(cleanKey(op.K))
				used["del"] = true
				break
			}
			for n := 0; n <= op.N; n++ {
				var x, y DS
				var px, py interface{}
				if op.I == 0 {
					px = capturePanic(func() { x = p.c.Shift() })
					py = capturePanic(func() { y = p.tc.Shift() })
					used["shift"] = true
				} else {
					px = capturePanic(func() { x = p.c.Pop() })
					py = capturePanic(func() { y = p.tc.Pop() })
					used["pop"] = true
				}
				if (px == nil) != (py == nil) || (x == nil) != (y == nil) || (x != nil && !w.eq(x, y)) {
					return failf("step %d: taking an element: plain %s (panic %v), thread safe %s (panic %v)", i, show(x), px, show(y), py)
				}
			}
		case "read":
			keys = append(keys, string(op.K))
		case "clone":
			if len(w.l) > 7 {
				continue
			}
			n := &pair{}
			w.cloned = true
			if p.d != nil {
				n.d, n.td = p.d.Clone(), p.td.Clone()
			} else {
				n.c, n.tc = p.c.Clone(), p.tc.Clone()
			}
			add(n)
			used["clone"] = true
		default:
			continue
		}
		for j, q := range w.l {
			if err := w.compare(q, keys); err != nil {
				return failf("after step %d (%s), pair %d: %v", i, op.Op, j, err)
			}
		}
	}
	for _, k := range c.Kinds {
		r.Label("kind %s", k)
	}
	for k := range used {
		r.Label("%s", k)
	}
	if len(used) > 1 {
		r.NonTrivial()
	}
	return nil
}

// --- C21 ------------------------------------------------------------------------------

// PrintCase is a content reached by two histories.
type PrintCase struct {
	Ver   string `json:"ver"`
	V     Val    `json:"v"`
	Order []int  `json:"order"`
	Extra []KV   `json:"extra"` // set before, then deleted or overwritten
	Lang  []KV   `json:"lang"`  // entries of a language table (string values)
}

func genPrint(t *rapid.T) *PrintCase {
	c := &PrintCase{Ver: genVer(t)}
	cfg := dsCfg(c.Ver, 25, true)
	cfg.keys = append(append([]string{}, dsKeys...), "a:b", "a", "aa", "a-", "Z", "10", "9")
	cfg.maxKeys, cfg.wide = 8, 6
	if chance(t, 25) {
		c.V = genCollVal(t, cfg, 3)
	} else {
		c.V = genDSVal(t, cfg, 3)
	}
	for i, n := 0, between(t, 1, 6); i < n; i++ {
		c.Order = append(c.Order, intn(t, 8))
	}
	for i, n := 0, intn(t, 5); i < n; i++ {
		c.Extra = append(c.Extra, KV{S(pick(t, cfg.keys)), genVal(t, cfg, 1)})
	}
	if chance(t, 8) {
		for i, n := 0, between(t, 8, 70); i < n; i++ {
			c.Lang = append(c.Lang, KV{S(wideKey(i)), Val{K: "string", S: S(wideKey(i))}})
		}
	}
	for i, n := 0, intn(t, 7); i < n; i++ {
		c.Lang = append(c.Lang, KV{S(pick(t, cfg.keys)), Val{K: "string", S: S(genString(t))}})
	}
	return c
}

// otherHistory builds the same content in another way.
func otherHistory(ver Ver, m interface{}, c *PrintCase, n *int) interface{} {
	order := func() int {
		*n++
		if len(c.Order) == 0 {
			return 0
		}
		return c.Order[*n%len(c.Order)]
	}
	switch x := m.(type) {
	case *MDS:
		d := ver.NewDS(x.Kind)
		for i := range c.Extra {
			v, _ := build(ver, &c.Extra[i].V)
			d.Set(cleanKey(c.Extra[i].K), v)
		}
		keys := sortedKeys(x.M)
		weight := map[string]int{}
		for _, k := range keys {
			weight[k] = order()
		}
		sort.SliceStable(keys, func(i, j int) bool { return weight[keys[i]] < weight[keys[j]] })
		for i, k := range keys {
			if order()%3 == 0 {
				d.Set(k, "other")
			}
			if order()%3 == 0 {
				d.Set(k, i)
				d.Del(k)
			}
			d.Set(k, otherHistory(ver, x.M[k], c, n))
		}
		for i := range c.Extra {
			if _, ok := x.M[cleanKey(c.Extra[i].K)]; !ok {
				d.Del(cleanKey(c.Extra[i].K))
			}
		}
		return d
	case *MColl:
		l := ver.NewColl(x.Kind)
		// start in the middle, go both ways, with something pushed and taken out again
		mid := 0
		if len(x.L) > 0 {
			mid = order() % len(x.L)
		}
		for i := mid; i < len(x.L); i++ {
			l.Push(otherHistory(ver, x.L[i], c, n).(DS))
		}
		l.Push(ver.NewDS(""))
		for i := mid - 1; i >= 0; i-- {
			l.Unshift(otherHistory(ver, x.L[i], c, n).(DS))
		}
		l.Unshift(ver.NewDS(""))
		l.Pop()
		l.Shift()
		return l
	}
	return m
}

func runPrint(r *R, c *PrintCase) error {
	ver := verOf(c.Ver)
	if c.V.K != "ds" && c.V.K != "coll" {
		return errDiscard
	}
	real, m := build(ver, &c.V)
	n := 0
	other := otherHistory(ver, m, c, &n)
	for i, v := range []interface{}{real, other, real, other} {
		if got, want := fmt.Sprint(unwrap(v)), fmt.Sprint(m); got != want {
			return failf("%s: printed (print %d)\n%s\nexpected\n%s", c.Ver, i, got, want)
		}
		if got, want := fmt.Sprintf("%#v", unwrap(v)), fmt.Sprintf("%#v", m); got != want {
			return failf("%s: printed with %%#v (print %d)\n%s\nexpected\n%s", c.Ver, i, got, want)
		}
	}
	// language tables
	a, b := ver.NewLang("n", "en"), ver.NewLang("n", "en")
	ml := &MLang{M: map[string]string{}}
	for i := range c.Lang {
		a.Set(string(c.Lang[i].K), string(c.Lang[i].V.S))
		ml.M[string(c.Lang[i].K)] = string(c.Lang[i].V.S)
	}
	for i := range c.Extra {
		b.Set(string(c.Extra[i].K), "extra")
	}
	for i := len(c.Lang) - 1; i >= 0; i-- {
		k := string(c.Lang[i].K)
		b.Set(k, "x")
		b.Set(k, ml.M[k])
	}
	for i := range c.Extra {
		if _, ok := ml.M[string(c.Extra[i].K)]; !ok {
			b.Del(string(c.Extra[i].K))
		}
	}
	for i, l := range []Lang{a, b, a, b} {
		if got, want := l.String(), ml.String(); got != want {
			return failf("%s: language table printed (print %d)\n%s\nexpected\n%s", c.Ver, i, got, want)
		}
		if got, want := l.GoString(), ml.GoString(); got != want {
			return failf("%s: language table printed with %%#v (print %d)\n%s\nexpected\n%s", c.Ver, i, got, want)
		}
	}
	r.Label("%s %s", c.Ver, c.V.K)
	if size(m) > 3 && len(ml.M) > 1 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	Add(Part{Prop: "C14", Name: "maps", Quick: 100000, Rule: "more than two nested maps, and a change afterwards on one of the sides"},
		genMaps, runMaps)
	Add(Part{Prop: "C18", Name: "pairs", Quick: 80000, Rule: "two or more kinds of modifying calls were made"},
		genPairs, runPairs)
	Add(Part{Prop: "C21", Name: "print", Quick: 24000, Rule: "more than three values in the structure and more than one entry in the language table"},
		genPrint, runPrint)
}
