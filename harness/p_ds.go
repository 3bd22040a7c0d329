package harness

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// DSOp is one step of a history on data sets and collections.
type DSOp struct {
	Op string `json:"op"`
	H  int    `json:"h"`            // number of the data set or collection
	K  S      `json:"k,omitempty"`  // key or path
	V  *Val   `json:"v,omitempty"`  // value
	I  int    `json:"i,omitempty"`  // index
	H2 int    `json:"h2,omitempty"` // second object
}

// DSCase is a history.
type DSCase struct {
	Ver  string `json:"ver"`
	Init []Val  `json:"init"` // ds and coll values
	Ops  []DSOp `json:"ops"`
}

var dsKeys = []string{"a", "b", "c", "d", "", "0", "1", "A", "é", "a b", ".x", longKey}

var dsVals = &valCfg{keys: dsKeys, scalars: moreKinds, maxLen: 4, maxKeys: 5, user: 4, wide: 2}

func dsCfg(ver string, ts int, zero bool) *valCfg {
	c := *dsVals
	if ver == "v2" {
		c.ts, c.zero = ts, zero
	}
	return &c
}

// dsWorld holds every container of a case.
type dsWorld struct {
	ver   Ver
	ds    []*MDS
	colls []*MColl
	keys  map[string]bool // every key used
}

func (w *dsWorld) use(key string) string {
	if w.keys == nil {
		w.keys = map[string]bool{}
	}
	w.keys[key] = true
	return key
}

// opKey draws the key of an operation, sometimes one of the value or a new one.
func opKey(t *rapid.T, keys []string, v *Val) S {
	switch weighted(t, []int{17, 2, 1}) {
	case 1:
		if v.K == "ds" && len(v.M) > 0 {
			return v.M[intn(t, len(v.M))].K
		}
	case 2:
		k := genString(t)
		if chance(t, 10) {
			k += strings.Repeat("long ", between(t, 1, 200))
		}
		return S(strings.ReplaceAll(k, ">", "_"))
	}
	return S(orWord(t, 2, pick(t, keys), noStep))
}

func sortedKeys(m map[string]interface{}) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// register adds a container and everything in it.
func (w *dsWorld) register(v interface{}) {
	switch x := v.(type) {
	case *MDS:
		for _, y := range w.ds {
			if x == y {
				return
			}
		}
		w.ds = append(w.ds, x)
		for _, k := range sortedKeys(x.M) {
			w.register(x.M[k])
		}
	case *MColl:
		for _, y := range w.colls {
			if x == y {
				return
			}
		}
		w.colls = append(w.colls, x)
		for _, d := range x.L {
			w.register(d)
		}
	}
}

// reaches tells whether a leads to b.
func reaches(a, b interface{}) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *MDS:
		for _, v := range x.M {
			if reaches(v, b) {
				return true
			}
		}
	case *MColl:
		for _, d := range x.L {
			if reaches(d, b) {
				return true
			}
		}
	}
	return false
}

// size counts the nodes of a structure as a tree.
func size(v interface{}) int {
	n := 1
	switch x := v.(type) {
	case *MDS:
		for _, y := range x.M {
			n += size(y)
		}
	case *MColl:
		for _, y := range x.L {
			n += size(y)
		}
	}
	return n
}

func sameScalar(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	return ok1 && ok2 && math.IsNaN(x) && math.IsNaN(y)
}

// same tells whether a value read is the value of the model: the same object for
// containers, an equal value else.
func same(real, model interface{}) bool {
	real = unwrap(real)
	switch m := model.(type) {
	case *MDS:
		return m.real != nil && real == m.real.Raw()
	case *MColl:
		return m.real != nil && real == m.real.Raw()
	case *MLang:
		return m.real != nil && real == m.real.Raw()
	}
	return sameScalar(real, model)
}

// lookupOK is lookup turning vagueness into a flag.
func lookupOK(d *MDS, path string) (v interface{}, ok, defined bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, isv := x.(vagueness); !isv {
				panic(x)
			}
			v, ok, defined = nil, false, false
		}
	}()
	v, ok = d.lookup(path)
	return v, ok, true
}

// checkGet compares a read by key or path with the model.
func checkGet(d *MDS, path string) error {
	v, ok, defined := lookupOK(d, path)
	got, gotOK := d.real.Get(path)
	if !defined {
		return nil
	}
	if gotOK != ok || (ok && !same(got, v)) || (!ok && got != nil) {
		return failf("Get(%q) = %s, %v; expected %s, %v\ndata set: %v", path, show(got), gotOK, show(v), ok, d)
	}
	gd, gdOK := d.real.GetDataset(path)
	md, isDS := v.(*MDS)
	if gdOK != isDS || (isDS && !same(gd, md)) || (!isDS && gd != nil) {
		return failf("GetDataset(%q) = %s, %v; expected %s\ndata set: %v", path, show(gd), gdOK, show(v), d)
	}
	gc, gcOK := d.real.GetCollection(path)
	mc, isColl := v.(*MColl)
	if gcOK != isColl || (isColl && !same(gc, mc)) || (!isColl && gc != nil) {
		return failf("GetCollection(%q) = %s, %v; expected %s\ndata set: %v", path, show(gc), gcOK, show(v), d)
	}
	return nil
}

func show(v interface{}) string {
	s := fmt.Sprintf("%T(%v)", unwrap(v), v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// checkAll compares every container with its model.
func (w *dsWorld) checkAll() error {
	for _, d := range w.ds {
		for _, k := range dsKeys {
			if err := checkGet(d, k); err != nil {
				return err
			}
		}
		for k := range d.M {
			if err := checkGet(d, k); err != nil {
				return err
			}
		}
		for k := range w.keys {
			if err := checkGet(d, k); err != nil {
				return err
			}
		}
	}
	for _, c := range w.colls {
		if err := checkColl(c); err != nil {
			return err
		}
	}
	return nil
}

func checkColl(c *MColl) error {
	if n := c.real.Count(); n != len(c.L) {
		return failf("Count() = %d, expected %d", n, len(c.L))
	}
	for i := -2; i < len(c.L)+3; i++ {
		d, ok := c.real.Get(i)
		in := i >= 0 && i < len(c.L)
		if ok != in || (in && !same(d, c.L[i])) || (!in && d != nil) {
			want := "nothing"
			if in {
				want = show(c.L[i])
			}
			return failf("collection Get(%d) = %s, %v; expected %s\ncollection of %d", i, show(d), ok, want, len(c.L))
		}
	}
	for _, i := range []int{math.MinInt64, math.MaxInt64} {
		if d, ok := c.real.Get(i); ok || d != nil {
			return failf("collection Get(%d) = %s, %v", i, show(d), ok)
		}
	}
	return nil
}

// genPath draws a path, often an existing one.
func genPath(t *rapid.T, keys []string) string {
	var l []string
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		switch intn(t, 6) {
		case 0, 1:
			l = append(l, pick(t, []string{"0", "1", "2", "3"}))
		case 2:
			l = append(l, pick(t, []string{"", "-1", "zz", "9", "x1", "1x", "01", "+1", " 0", "0.0", "99999999999999999999"}))
		default:
			l = append(l, pick(t, keys))
		}
	}
	return strings.Join(l, ">")
}

// genValPath draws a path existing in a value, when there is one.
func genValPath(t *rapid.T, v *Val) string {
	var steps []string
	for d := 0; d < 9; d++ {
		if v.K == "ds" && len(v.M) > 0 {
			e := &v.M[intn(t, len(v.M))]
			steps = append(steps, string(e.K))
			v = &e.V
		} else if v.K == "coll" && len(v.L) > 0 {
			i := intn(t, len(v.L))
			steps = append(steps, fmt.Sprint(i))
			v = &v.L[i]
		} else {
			break
		}
		if chance(t, 25) {
			break
		}
	}
	return strings.Join(steps, ">")
}

func (w *dsWorld) init(c *DSCase) {
	w.ver = verOf(c.Ver)
	for i := range c.Init {
		if c.Init[i].K != "ds" && c.Init[i].K != "coll" {
			continue
		}
		_, m := build(w.ver, &c.Init[i])
		w.attach(m)
	}
}

func (w *dsWorld) attach(m interface{}) { w.register(m) }

func (w *dsWorld) dsAt(h int) *MDS {
	if len(w.ds) == 0 {
		return nil
	}
	return w.ds[abs(h)%len(w.ds)]
}

func (w *dsWorld) collAt(h int) *MColl {
	if len(w.colls) == 0 {
		return nil
	}
	return w.colls[abs(h)%len(w.colls)]
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func cleanKey(s S) string { return strings.ReplaceAll(string(s), ">", "_") }

// take runs Pop or Shift on a collection and checks what comes back.
func take(c *MColl, pop bool) error {
	name := "Shift"
	f := c.real.Shift
	if pop {
		name, f = "Pop", c.real.Pop
	}
	if len(c.L) == 0 {
		var d DS
		capturePanic(func() { d = f() })
		if d != nil {
			return failf("%s on an empty collection returned %s", name, show(d))
		}
		return nil
	}
	var want *MDS
	if pop {
		want = c.L[len(c.L)-1]
		c.L = append([]*MDS{}, c.L[:len(c.L)-1]...)
	} else {
		want = c.L[0]
		c.L = append([]*MDS{}, c.L[1:]...)
	}
	if d := f(); !same(d, want) {
		return failf("%s() = %s, expected %s", name, show(d), show(want))
	}
	return nil
}

// apply runs an operation that modifies, on both sides. ok is false if it does not apply.
func (w *dsWorld) apply(op *DSOp) (ok bool, err error) {
	switch op.Op {
	case "set":
		d := w.dsAt(op.H)
		if d == nil || op.V == nil {
			return false, nil
		}
		real, m := build(w.ver, op.V)
		d.real.Set(w.use(cleanKey(op.K)), real)
		d.M[cleanKey(op.K)] = m
		w.attach(m)
	case "link": // the same container in several places
		d := w.dsAt(op.H)
		if d == nil {
			return false, nil
		}
		var target interface{}
		var raw interface{}
		if op.I%2 == 0 || len(w.colls) == 0 {
			x := w.dsAt(op.H2)
			target, raw = x, x.real
		} else {
			x := w.collAt(op.H2)
			target, raw = x, x.real
		}
		if reaches(target, d) || size(target)+size(d) > limits.size {
			return false, nil
		}
		d.real.Set(w.use(cleanKey(op.K)), raw)
		d.M[cleanKey(op.K)] = target
	case "del":
		d := w.dsAt(op.H)
		if d == nil {
			return false, nil
		}
		d.real.Del(w.use(cleanKey(op.K)))
		delete(d.M, cleanKey(op.K))
	case "push", "unshift":
		c := w.collAt(op.H)
		if c == nil {
			return false, nil
		}
		var x *MDS
		if op.V != nil && op.V.K == "ds" {
			_, x = buildDS(w.ver, op.V)
			w.attach(x)
		} else {
			x = w.dsAt(op.H2)
			if x == nil || reaches(x, c) || size(x)+size(c) > limits.size {
				return false, nil
			}
		}
		if op.Op == "push" {
			c.real.Push(x.real)
			c.L = append(append([]*MDS{}, c.L...), x)
		} else {
			c.real.Unshift(x.real)
			c.L = append([]*MDS{x}, c.L...)
		}
	case "pop", "shift":
		c := w.collAt(op.H)
		if c == nil {
			return false, nil
		}
		return true, take(c, op.Op == "pop")
	default:
		return false, nil
	}
	return true, nil
}

// --- C12 ------------------------------------------------------------------------------

func genDSHistory(t *rapid.T) *DSCase {
	c := &DSCase{Ver: genVer(t)}
	cfg := dsCfg(c.Ver, 20, true)
	d := genDSVal(t, cfg, 3)
	d.M = append(d.M, KV{S(pick(t, dsKeys[:3])), genCollVal(t, cfg, 2)}, KV{S(pick(t, dsKeys[:3])), genDSVal(t, cfg, 2)})
	c.Init = append(c.Init, d)
	n := between(t, 2, 15)
	if chance(t, 5) {
		n = between(t, 20, 50)
	}
	for i := 0; i < n; i++ {
		op := DSOp{H: intn(t, 8), K: opKey(t, dsKeys, &d)}
		switch weighted(t, []int{8, 4, 2, 2, 2, 1, 1}) {
		case 0:
			op.Op = "get"
			if chance(t, 50) {
				op.H, op.K = 0, S(genValPath(t, &d))
				if chance(t, 20) {
					op.K += S(">" + pick(t, dsKeys))
				}
			} else {
				op.K = S(genPath(t, dsKeys))
			}
		case 1:
			op.Op = "set"
			v := genVal(t, cfg, 2)
			op.V = &v
		case 2:
			op.Op = "del"
		case 3:
			op.Op, op.H2, op.I = "link", intn(t, 8), intn(t, 2)
		case 4:
			op.Op = "push"
			v := genDSVal(t, cfg, 1)
			op.V = &v
		case 5:
			op.Op = "pop"
		case 6:
			op.Op = "shift"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runDSHistory(r *R, c *DSCase) error {
	w := &dsWorld{}
	w.init(c)
	deep, changes := 0, 0
	for i := range c.Ops {
		op := &c.Ops[i]
		if op.Op == "get" {
			d := w.dsAt(op.H)
			if d == nil {
				continue
			}
			if err := checkGet(d, string(op.K)); err != nil {
				return err
			}
			if _, ok, _ := lookupOK(d, string(op.K)); ok && strings.Contains(string(op.K), ">") {
				deep++
			}
			continue
		}
		ok, err := w.apply(op)
		if err != nil {
			return err
		}
		if ok {
			changes++
			r.Label("%s", op.Op)
		}
		if err := w.checkAll(); err != nil {
			return failf("after step %d (%s %q): %v", i, op.Op, op.K, err)
		}
	}
	r.Label("%s", c.Ver)
	if deep > 0 {
		r.Label("deep read")
	}
	if deep > 0 && changes > 0 {
		r.NonTrivial()
	}
	return nil
}

// --- C13 ------------------------------------------------------------------------------

// ReadCase reads one value by every typed accessor.
type ReadCase struct {
	Ver  string `json:"ver"`
	Kind string `json:"kind"`
	Path []S    `json:"path"` // keys; a number in it: index into a collection of that length+1
	V    Val    `json:"v"`
	Miss S      `json:"miss"`
}

type num struct {
	isNum bool
	f     float64
	i     int64
	big   bool // not representable as int
}

func numOf(v interface{}, v2 bool) num {
	switch x := v.(type) {
	case bool:
		if x {
			return num{true, 1, 1, false}
		}
		return num{true, 0, 0, false}
	case float32:
		return floatNum(float64(x))
	case float64:
		return floatNum(x)
	case time.Time:
		if !v2 {
			return num{}
		}
		if x.IsZero() {
			return num{true, 0, 0, false}
		}
		return num{true, float64(x.Unix()), x.Unix(), false}
	}
	rv := reflect.ValueOf(v)
	switch {
	case v == nil:
		return num{}
	case rv.CanInt():
		return num{true, float64(rv.Int()), rv.Int(), false}
	case rv.CanUint():
		return num{true, float64(rv.Uint()), int64(rv.Uint()), rv.Uint() > math.MaxInt64}
	}
	return num{}
}

// isFraction tells whether f is the time v with its fraction of second: only its whole
// seconds are specified.
func isFraction(v interface{}, f float64) bool {
	t, ok := v.(time.Time)
	return ok && t.Nanosecond() != 0 && math.Abs(f-float64(t.Unix())) <= 1
}

func floatNum(f float64) num {
	if math.IsNaN(f) || f >= 1<<63 || f < -(1<<63) {
		return num{true, f, 0, true}
	}
	return num{true, f, int64(math.Trunc(f)), false}
}

// checkTyped compares every typed accessor with the conversion table.
func checkTyped(d DS, path string, v interface{}, ok, v2 bool) error {
	bad := func(name string, got interface{}, gotOK bool, want interface{}, wantOK bool) error {
		return failf("%s of %s = %s, %v; expected %s, %v", name, show(v), show(got), gotOK, show(want), wantOK)
	}
	s, sok := d.GetString(path)
	ws := ""
	if ok {
		ws = printed(v)
	}
	if s != ws || sok != ok {
		return bad("GetString", s, sok, ws, ok)
	}
	n := numOf(v, v2)
	i, iok := d.GetInt(path)
	if !n.big && (iok != n.isNum || int64(i) != n.i) {
		return bad("GetInt", i, iok, n.i, n.isNum)
	}
	f, fok := d.GetFloat(path)
	if isFraction(v, f) {
		f = n.f
	}
	if fok != n.isNum || !sameScalar(f, n.f) {
		return bad("GetFloat", f, fok, n.f, n.isNum)
	}
	b, bok := d.GetBool(path)
	wb := ok && v != nil
	if n.isNum {
		wb = n.f != 0
	}
	if t, ist := v.(time.Time); ist {
		wb = !v2 || !t.IsZero()
	}
	if b != wb || (bok != ok && !(ok && v == nil)) {
		return bad("GetBool", b, bok, wb, ok)
	}
	t, tok := d.GetTime(path)
	wt, ist := v.(time.Time)
	if tok != ist || t != wt {
		return bad("GetTime", t, tok, wt, ist)
	}
	ss, ssok := d.GetStringCollection(path)
	if w, is := v.([]string); ssok != is || !reflect.DeepEqual(ss, w) {
		return bad("GetStringCollection", ss, ssok, w, is)
	}
	bs, bsok := d.GetBoolCollection(path)
	if w, is := v.([]bool); bsok != is || !reflect.DeepEqual(bs, w) {
		return bad("GetBoolCollection", bs, bsok, w, is)
	}
	is_, isok := d.GetIntCollection(path)
	if w, is := v.([]int); isok != is || !reflect.DeepEqual(is_, w) {
		return bad("GetIntCollection", is_, isok, w, is)
	}
	fs, fsok := d.GetFloatCollection(path)
	if w, is := v.([]float64); fsok != is || !reflect.DeepEqual(fs, w) {
		return bad("GetFloatCollection", fs, fsok, w, is)
	}
	ts, tsok := d.GetTimeCollection(path)
	if w, is := v.([]time.Time); tsok != is || !reflect.DeepEqual(ts, w) {
		return bad("GetTimeCollection", ts, tsok, w, is)
	}
	gd, gdok := d.GetDataset(path)
	if w, is := v.(*MDS); gdok != is || (is && !same(gd, w)) || (!is && gd != nil) {
		return bad("GetDataset", gd, gdok, v, is)
	}
	gc, gcok := d.GetCollection(path)
	if w, is := v.(*MColl); gcok != is || (is && !same(gc, w)) || (!is && gc != nil) {
		return bad("GetCollection", gc, gcok, v, is)
	}
	return nil
}

func genRead(t *rapid.T) *ReadCase {
	c := &ReadCase{Ver: genVer(t)}
	cfg := dsCfg(c.Ver, 20, false)
	c.Kind = genKind(t, cfg)
	depth := intn(t, 3)
	if chance(t, 5) {
		depth = between(t, 3, 12)
	}
	for i := 0; i < depth; i++ {
		c.Path = append(c.Path, S(pick(t, []string{"a", "b", "0", "1", "2", "é"})))
	}
	if chance(t, 85) {
		c.V = genScalar(t, cfg.scalars)
		if c.V.K == "float64" && chance(t, 10) {
			c.V.F = pick(t, []string{"NaN", "+Inf", "-Inf", "1e300", "-1e300"})
		}
		if c.V.K == "uint64" && chance(t, 10) {
			c.V.U = math.MaxUint64
		}
	} else {
		c.V = genVal(t, cfg, 2)
	}
	c.Miss = S(genPath(t, dsKeys))
	return c
}

func runRead(r *R, c *ReadCase) error {
	ver := verOf(c.Ver)
	v := c.V
	path := "k"
	// wrap the value from the inside out
	wrapped := Val{K: "ds", M: []KV{{"k", v}}}
	for i := len(c.Path) - 1; i >= 0; i-- {
		p := cleanKey(c.Path[i])
		if n, ok, _ := canonIndex(p); ok && n >= 0 && n < 5 {
			coll := Val{K: "coll", Kind: c.Kind}
			for k := 0; k < n; k++ {
				coll.L = append(coll.L, Val{K: "ds", M: []KV{{"k", Val{K: "string", S: "other"}}}})
			}
			coll.L = append(coll.L, wrapped)
			wrapped = Val{K: "ds", M: []KV{{"c", coll}}}
			path = "c>" + p + ">" + path
		} else {
			wrapped = Val{K: "ds", Kind: c.Kind, M: []KV{{S(p), wrapped}}}
			path = p + ">" + path
		}
	}
	wrapped.Kind = c.Kind
	d, m := buildDS(ver, &wrapped)
	mv, ok, defined := lookupOK(m, path)
	if !ok || !defined {
		return failf("harness: value lost at %q", path)
	}
	if err := checkTyped(d, path, mv, true, ver.IsV2()); err != nil {
		return failf("%s %s path %q: %v", c.Ver, c.Kind, path, err)
	}
	if mv, ok, defined := lookupOK(m, string(c.Miss)); defined {
		if err := checkTyped(d, string(c.Miss), mv, ok, ver.IsV2()); err != nil {
			return failf("%s %s path %q: %v", c.Ver, c.Kind, c.Miss, err)
		}
		if !ok {
			r.Label("missing key")
		}
	}
	if err := checkTyped(d, "not there", nil, false, ver.IsV2()); err != nil {
		return failf("%s %s missing key: %v", c.Ver, c.Kind, err)
	}
	r.Label("%s", v.K)
	r.Label("%s%s", c.Ver, c.Kind)
	if v.K != "string" {
		r.NonTrivial()
	}
	return nil
}

// --- C15 ------------------------------------------------------------------------------

func genDeque(t *rapid.T) *DSCase {
	c := &DSCase{Ver: genVer(t)}
	cfg := dsCfg(c.Ver, 40, false)
	cfg.maxKeys = 2
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		c.Init = append(c.Init, genCollVal(t, cfg, 0))
	}
	c.Init = append(c.Init, Val{K: "ds", M: []KV{{"a", Val{K: "int", I: 7}}}})
	long := chance(t, 15)
	n := between(t, 3, 20)
	if long {
		n = between(t, 40, 80)
	}
	for i := 0; i < n; i++ {
		op := DSOp{H: intn(t, 3), H2: intn(t, 16), K: S(pick(t, dsKeys[:3]))}
		switch weighted(t, []int{5, 5, 5, 5, 2, 1}) {
		case 0:
			op.Op = "push"
		case 1:
			op.Op = "unshift"
		case 2:
			op.Op = "pop"
		case 3:
			op.Op = "shift"
		case 4:
			op.Op = "set"
			v := genScalar(t, moreKinds)
			op.V, op.H = &v, op.H2
		case 5:
			op.Op, op.H = "del", op.H2
		}
		if (op.Op == "push" || op.Op == "unshift") && chance(t, 60) {
			v := genDSVal(t, cfg, 0)
			op.V = &v
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runDeque(r *R, c *DSCase) error {
	w := &dsWorld{}
	w.init(c)
	empties, took := 0, 0
	for i := range c.Ops {
		op := &c.Ops[i]
		if x := w.collAt(op.H); x != nil && (op.Op == "pop" || op.Op == "shift") {
			if len(x.L) == 0 {
				empties++
			} else {
				took++
			}
		}
		if _, err := w.apply(op); err != nil {
			return failf("step %d (%s): %v", i, op.Op, err)
		}
		if err := w.checkAll(); err != nil {
			return failf("after step %d (%s): %v", i, op.Op, err)
		}
	}
	r.Label("%s", c.Ver)
	if empties > 0 {
		r.Label("taken from empty")
	}
	if took >= 2 {
		r.NonTrivial()
	}
	return nil
}

// BulkOp puts N records into a collection or takes them out.
type BulkOp struct {
	Op string `json:"op"`
	N  int    `json:"n"`
}

// BulkCase is a long history of one collection.
type BulkCase struct {
	Ver  string   `json:"ver"`
	Kind string   `json:"kind,omitempty"`
	Ops  []BulkOp `json:"ops"`
}

func genBulk(t *rapid.T) *BulkCase {
	c := &BulkCase{Ver: genVer(t)}
	if c.Ver == "v2" && chance(t, 40) {
		c.Kind = "t"
	}
	max := pick(t, []int{4, 20, 70, 300})
	for i, n := 0, between(t, 3, 25); i < n; i++ {
		op := BulkOp{pick(t, []string{"push", "push", "unshift", "pop", "shift", "shift", "clone", "wave"}), orSize(t, 5, between(t, 1, max), 400)}
		if op.Op == "unshift" && chance(t, 50) {
			op.Op = "push"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runBulk(r *R, c *BulkCase) error {
	ver := verOf(c.Ver)
	coll := ver.NewColl(c.Kind)
	var m []DS
	made, most := 0, 0
	record := func() DS {
		d := ver.NewDS("")
		d.Set("n", made)
		made++
		return d
	}
	same := func(i int) error {
		d, ok := coll.Get(i)
		if !ok || d == nil || d.Raw() != m[i].Raw() {
			return failf("record %d of %d is not the one put there", i, len(m))
		}
		return nil
	}
	put := func(front bool) {
		d := record()
		if front {
			coll.Unshift(d)
			m = append([]DS{d}, m...)
		} else {
			coll.Push(d)
			m = append(m, d)
		}
	}
	take := func(front bool) error {
		if len(m) == 0 {
			return nil
		}
		var d DS
		want := m[len(m)-1]
		if front {
			d, want = coll.Shift(), m[0]
			m = m[1:]
		} else {
			d = coll.Pop()
			m = m[:len(m)-1]
		}
		if d == nil || d.Raw() != want.Raw() {
			return failf("the record taken out (front: %v) is not the expected one; %d are left", front, len(m))
		}
		return nil
	}
	for i, op := range c.Ops {
		if op.N < 0 || op.N > 10000 {
			return errDiscard
		}
		for k := 0; k < op.N; k++ {
			var err error
			switch op.Op {
			case "push", "unshift":
				put(op.Op == "unshift")
			case "pop", "shift":
				err = take(op.Op == "shift")
			case "wave": // a queue that moves on
				put(false)
				err = take(true)
			case "clone":
				if k == 0 && ver.IsV2() {
					x := coll.Clone()
					if x.Count() != len(m) {
						err = failf("the clone has %d records, expected %d", x.Count(), len(m))
					}
					for x.Count() > 0 {
						x.Pop()
					}
				}
			}
			if err == nil && coll.Count() != len(m) {
				err = failf("Count() = %d, expected %d", coll.Count(), len(m))
			}
			if err == nil && len(m) > 0 {
				for _, at := range []int{0, len(m) / 2, len(m) - 1} {
					if err == nil {
						err = same(at)
					}
				}
			}
			if err != nil {
				return failf("%s, step %d (%s, %d of %d): %v", c.Ver, i, op.Op, k, op.N, err)
			}
		}
		for k := range m {
			if err := same(k); err != nil {
				return failf("%s, after step %d (%s %d): %v", c.Ver, i, op.Op, op.N, err)
			}
			if n, ok := m[k].GetInt("n"); !ok || n < 0 || n >= made {
				return failf("%s, after step %d (%s %d): a record lost its value", c.Ver, i, op.Op, op.N)
			}
		}
		if _, ok := coll.Get(len(m)); ok {
			return failf("%s, after step %d (%s %d): there is a record %d", c.Ver, i, op.Op, op.N, len(m))
		}
		if len(m) > most {
			most = len(m)
		}
	}
	r.Label("%s%s", c.Ver, c.Kind)
	if most > 64 {
		r.Label("more than 64 records")
		r.NonTrivial()
	}
	return nil
}

// --- C16 ------------------------------------------------------------------------------

// FindCase looks keys up in a collection.
type FindCase struct {
	Ver  string `json:"ver"`
	Coll Val    `json:"coll"`
	Keys []S    `json:"keys"`
	Ops  []DSOp `json:"ops"` // push, pop, shift, unshift in between
}

func genFind(t *rapid.T) *FindCase {
	c := &FindCase{Ver: genVer(t)}
	cfg := dsCfg(c.Ver, 30, false)
	cfg.keys = dsKeys[:5]
	cfg.maxKeys = 4
	cfg.scalars = []string{"nil", "int", "string", "bool", "float64", "time", "int8", "uint16", "strings", "float32", "ints", "stringer", "struct", "bytes"}
	c.Coll = genCollVal(t, cfg, 2)
	for i, n := 0, between(t, 1, 5); i < n; i++ {
		switch intn(t, 3) {
		case 0:
			c.Keys = append(c.Keys, S(genPath(t, cfg.keys)))
		case 1:
			if len(c.Coll.L) > 0 {
				c.Keys = append(c.Keys, S(genValPath(t, &c.Coll.L[intn(t, len(c.Coll.L))])))
				break
			}
			fallthrough
		default:
			c.Keys = append(c.Keys, S(pick(t, cfg.keys)))
		}
	}
	for i, n := 0, intn(t, 4); i < n; i++ {
		op := DSOp{Op: pick(t, []string{"push", "unshift", "pop", "shift"})}
		v := genDSVal(t, cfg, 1)
		op.V = &v
		c.Ops = append(c.Ops, op)
	}
	return c
}

// checkFind compares every lookup with the model.
func checkFind(c *MColl, key string, v2 bool) (found, fallback bool, err error) {
	var v interface{}
	ok := false
	for i := len(c.L) - 1; i >= 0 && !ok; i-- {
		var defined bool
		v, ok, defined = lookupOK(c.L[i], key)
		if !defined {
			return false, false, nil
		}
		if ok && i < len(c.L)-1 {
			fallback = true
		}
	}
	bad := func(name string, got interface{}, gotOK bool, want interface{}, wantOK bool) error {
		return failf("%s(%q) = %s, %v; the last record having it has %s; expected %s, %v\ncollection: %v", name, key, show(got), gotOK, show(v), show(want), wantOK, c)
	}
	g, gok := c.real.GetData(key)
	if gok != ok || (ok && !same(g, v)) || (!ok && g != nil) {
		return ok, fallback, bad("GetData", g, gok, v, ok)
	}
	s, sok := c.real.GetDataString(key)
	if s != printed(v) || sok != ok {
		return ok, fallback, bad("GetDataString", s, sok, printed(v), ok)
	}
	n := numOf(v, v2)
	i, iok := c.real.GetDataInt(key)
	if w, is := v.(int); is {
		if i != w || !iok {
			return ok, fallback, bad("GetDataInt", i, iok, w, true)
		}
	} else if !(i == 0 && !iok) && !(n.isNum && !n.big && iok && int64(i) == n.i) {
		return ok, fallback, bad("GetDataInt", i, iok, 0, false)
	}
	f, fok := c.real.GetDataFloat(key)
	if fok && isFraction(v, f) {
		f = n.f
	}
	if w, is := v.(float64); is {
		if f != w || !fok {
			return ok, fallback, bad("GetDataFloat", f, fok, w, true)
		}
	} else if !(f == 0 && !fok) && !(n.isNum && fok && f == n.f) {
		return ok, fallback, bad("GetDataFloat", f, fok, 0, false)
	}
	b, bok := c.real.GetDataBool(key)
	if w, is := v.(bool); is {
		if b != w || !bok {
			return ok, fallback, bad("GetDataBool", b, bok, w, true)
		}
	} else if !ok && (b || bok) || b && !bok || bok && n.isNum && b != (n.f != 0) {
		return ok, fallback, bad("GetDataBool", b, bok, false, false)
	}
	t, tok := c.real.GetDataTime(key)
	if w, is := v.(time.Time); tok != is || t != w {
		return ok, fallback, bad("GetDataTime", t, tok, w, is)
	}
	gc, gcok := c.real.GetCollection(key)
	if w, is := v.(*MColl); gcok != is || (is && !same(gc, w)) || (!is && gc != nil) {
		return ok, fallback, bad("GetCollection", gc, gcok, v, is)
	}
	return ok, fallback, nil
}

func runFind(r *R, c *FindCase) error {
	w := &dsWorld{}
	w.init(&DSCase{Ver: c.Ver, Init: []Val{c.Coll}})
	if len(w.colls) == 0 {
		return errDiscard
	}
	main := w.colls[0]
	hits, falls := 0, 0
	for step := 0; ; step++ {
		keys := append([]S{}, c.Keys...)
		for _, k := range dsKeys[:5] {
			keys = append(keys, S(k))
		}
		for _, k := range keys {
			found, fall, err := checkFind(main, string(k), w.ver.IsV2())
			if err != nil {
				return failf("%s: %v", c.Ver, err)
			}
			if found {
				hits++
			}
			if fall {
				falls++
			}
		}
		if step >= len(c.Ops) {
			break
		}
		op := c.Ops[step]
		op.H = 0
		if _, err := w.apply(&op); err != nil {
			return err
		}
	}
	r.Label("%s", c.Ver)
	if hits > 0 && falls > 0 {
		r.NonTrivial()
	}
	return nil
}

// --- C17 ------------------------------------------------------------------------------

// align connects a cloned structure with its model, checking it on the way.
func align(ver Ver, orig, clone interface{}, real interface{}, path string, seen map[interface{}]bool) error {
	switch m := clone.(type) {
	case *MDS:
		o := orig.(*MDS)
		d, ok := ver.IsDS(unwrap(real))
		if !ok {
			return failf("clone: %s is %s, not a data set", path, show(real))
		}
		if d.Raw() == o.real.Raw() {
			return failf("clone: the data set at %q is the original object itself", path)
		}
		if reflect.TypeOf(d.Raw()) != reflect.TypeOf(o.real.Raw()) {
			return failf("clone: the data set at %q is a %T, in the original a %T", path, d.Raw(), o.real.Raw())
		}
		if seen[d.Raw()] {
			return errDiscard // what was one object in the original may be one in the clone
		}
		seen[d.Raw()] = true
		m.real = d
		for _, k := range sortedKeys(m.M) {
			switch m.M[k].(type) {
			case *MDS, *MColl:
				v, ok := d.Get(k)
				if !ok {
					return failf("clone: key %q missing at %q", k, path)
				}
				if err := align(ver, o.M[k], m.M[k], v, path+">"+k, seen); err != nil {
					return err
				}
			}
		}
	case *MColl:
		o := orig.(*MColl)
		c, ok := ver.IsColl(unwrap(real))
		if !ok {
			return failf("clone: %s is %s, not a collection", path, show(real))
		}
		if c.Raw() == o.real.Raw() {
			return failf("clone: the collection at %q is the original object itself", path)
		}
		if reflect.TypeOf(c.Raw()) != reflect.TypeOf(o.real.Raw()) {
			return failf("clone: the collection at %q is a %T, in the original a %T", path, c.Raw(), o.real.Raw())
		}
		if seen[c.Raw()] {
			return errDiscard
		}
		seen[c.Raw()] = true
		m.real = c
		if c.Count() != len(m.L) {
			return failf("clone: %d records at %q, expected %d", c.Count(), path, len(m.L))
		}
		for i := range m.L {
			d, ok := c.Get(i)
			if !ok {
				return failf("clone: record %d missing at %q", i, path)
			}
			if err := align(ver, o.L[i], m.L[i], d, fmt.Sprintf("%s>%d", path, i), seen); err != nil {
				return err
			}
		}
	}
	return nil
}

func genCloneHistory(t *rapid.T) *DSCase {
	c := &DSCase{Ver: genVer(t)}
	cfg := dsCfg(c.Ver, 35, true)
	cfg.keys = dsKeys[:5]
	cfg.maxKeys = 4
	cfg.maxLen = 3
	d := genDSVal(t, cfg, 3)
	d.M = append(d.M, KV{S(pick(t, cfg.keys)), genCollVal(t, cfg, 2)}, KV{S(pick(t, cfg.keys)), genDSVal(t, cfg, 2)})
	c.Init = append(c.Init, d)
	if chance(t, 50) {
		c.Init = append(c.Init, genCollVal(t, cfg, 2))
	}
	if chance(t, 30) { // the same object in several places
		for i, n := 0, between(t, 1, 4); i < n; i++ {
			op := DSOp{Op: pick(t, []string{"link", "push", "push", "unshift"}), H: intn(t, 8), H2: intn(t, 8), K: opKey(t, cfg.keys, &d), I: intn(t, 2)}
			c.Ops = append(c.Ops, op)
			if chance(t, 50) {
				c.Ops = append(c.Ops, op)
			}
		}
	}
	cloned := false
	for i, n := 0, between(t, 2, 12); i < n; i++ {
		op := DSOp{H: intn(t, 24), K: opKey(t, cfg.keys, &d), I: intn(t, 2)}
		w := weighted(t, []int{3, 5, 2, 2, 2, 2, 2})
		if !cloned {
			w = 0
		}
		switch w {
		case 0:
			op.Op = "clone"
			cloned = true
			if i == 0 {
				op.H = intn(t, 2)
			}
		case 1:
			op.Op = "set"
			v := genVal(t, cfg, 1)
			op.V = &v
		case 2:
			op.Op = "del"
		case 3, 4:
			op.Op = pick(t, []string{"push", "unshift"})
			v := genDSVal(t, cfg, 1)
			op.V = &v
		case 5:
			op.Op = "pop"
		case 6:
			op.Op = "shift"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runCloneHistory(r *R, c *DSCase) error {
	w := &dsWorld{}
	w.init(c)
	clones, changes := 0, 0
	for i := range c.Ops {
		op := &c.Ops[i]
		if op.Op == "clone" {
			var err error
			if op.I%2 == 1 && len(w.colls) > 0 {
				o := w.collAt(op.H)
				if size(o) > limits.size {
					continue
				}
				m := o.clone()
				err = align(w.ver, o, m, o.real.Clone(), "clone", map[interface{}]bool{})
				w.attach(m)
				r.Label("collection clone")
			} else {
				o := w.dsAt(op.H)
				if o == nil || size(o) > limits.size {
					continue
				}
				m := o.clone()
				err = align(w.ver, o, m, o.real.Clone(), "clone", map[interface{}]bool{})
				w.attach(m)
				r.Label("data set clone")
			}
			if err == errDiscard {
				return err
			}
			if err != nil {
				return failf("%s: %v", c.Ver, err)
			}
			clones++
		} else {
			ok, err := w.apply(op)
			if err != nil {
				return err
			}
			if ok && clones > 0 {
				changes++
			}
		}
		if err := w.checkAll(); err != nil {
			return failf("%s: after step %d (%s): %v", c.Ver, i, op.Op, err)
		}
	}
	r.Label("%s", c.Ver)
	if changes > 1 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	Add(Part{Prop: "C12", Name: "history", Quick: 80000, Rule: "a path of two or more steps was read successfully in a structure that was modified"},
		genDSHistory, runDSHistory)
	Add(Part{Prop: "C13", Name: "typed", Quick: 2000000, Rule: "the value read is not a plain string"},
		genRead, runRead)
	Add(Part{Prop: "C15", Name: "deque", Quick: 80000, Rule: "at least two records were taken out of non-empty collections"},
		genDeque, runDeque)
	Add(Part{Prop: "C15", Name: "bulk", Quick: 8000, Rule: "the collection had more than 64 records"},
		genBulk, runBulk)
	Add(Part{Prop: "C16", Name: "find", Quick: 400000, Rule: "a lookup had to go past the last record and found the key"},
		genFind, runFind)
	Add(Part{Prop: "C17", Name: "clones", Quick: 80000, Rule: "at least two modifications were made after a clone"},
		genCloneHistory, runCloneHistory)
}
