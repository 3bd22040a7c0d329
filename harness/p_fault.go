package harness

import (
	"fmt"
	"time"

	x2 "github.com/webability-go/xcore/v2"
	"pgregory.net/rapid"
)

// faultDS is a data set of the user whose methods panic while it is armed.
type faultDS struct {
	*x2.XDataset
	armed bool
}

func (f *faultDS) hit() {
	if f.armed {
		panic("user data set failure")
	}
}

func (f *faultDS) Set(key string, v interface{})      { f.hit(); f.XDataset.Set(key, v) }
func (f *faultDS) Get(key string) (interface{}, bool) { f.hit(); return f.XDataset.Get(key) }
func (f *faultDS) GetDataset(key string) (x2.XDatasetDef, bool) {
	f.hit()
	return f.XDataset.GetDataset(key)
}
func (f *faultDS) GetCollection(key string) (x2.XDatasetCollectionDef, bool) {
	f.hit()
	return f.XDataset.GetCollection(key)
}
func (f *faultDS) GetString(key string) (string, bool)  { f.hit(); return f.XDataset.GetString(key) }
func (f *faultDS) GetBool(key string) (bool, bool)      { f.hit(); return f.XDataset.GetBool(key) }
func (f *faultDS) GetInt(key string) (int, bool)        { f.hit(); return f.XDataset.GetInt(key) }
func (f *faultDS) GetFloat(key string) (float64, bool)  { f.hit(); return f.XDataset.GetFloat(key) }
func (f *faultDS) GetTime(key string) (time.Time, bool) { f.hit(); return f.XDataset.GetTime(key) }
func (f *faultDS) GetStringCollection(key string) ([]string, bool) {
	f.hit()
	return f.XDataset.GetStringCollection(key)
}
func (f *faultDS) GetBoolCollection(key string) ([]bool, bool) {
	f.hit()
	return f.XDataset.GetBoolCollection(key)
}
func (f *faultDS) GetIntCollection(key string) ([]int, bool) {
	f.hit()
	return f.XDataset.GetIntCollection(key)
}
func (f *faultDS) GetFloatCollection(key string) ([]float64, bool) {
	f.hit()
	return f.XDataset.GetFloatCollection(key)
}
func (f *faultDS) GetTimeCollection(key string) ([]time.Time, bool) {
	f.hit()
	return f.XDataset.GetTimeCollection(key)
}
func (f *faultDS) Del(key string)        { f.hit(); f.XDataset.Del(key) }
func (f *faultDS) Clone() x2.XDatasetDef { f.hit(); return f.XDataset.Clone() }
func (f *faultDS) String() string        { f.hit(); return f.XDataset.String() }
func (f *faultDS) GoString() string      { f.hit(); return f.XDataset.GoString() }

// FaultOp is a call, made while the user's code fails or not.
type FaultOp struct {
	Op    string `json:"op"`
	K     S      `json:"k"`
	I     int    `json:"i"`
	Fault bool   `json:"fault,omitempty"`
}

// FaultCase is a history with failures.
type FaultCase struct {
	Target string    `json:"target"`
	Ops    []FaultOp `json:"ops"`
}

var faultTargets = map[string][]string{
	"data set":   append([]string{"Set", "Set", "Set", "Del", "Clone", "String", "GoString", "Execute"}, dsReads...),
	"collection": append([]string{"Push", "Push", "Unshift", "Pop", "Shift", "Clone", "Clone", "String", "GoString", "Count", "Get"}, collReads...),
	"cache v1":   {"Set", "Set", "Set", "Get", "Get", "Get", "Verify", "Verify", "Clean", "Count", "Del", "Flush"},
	"cache v2":   {"Set", "Set", "Set", "Get", "Get", "Get", "Verify", "Verify", "Clean", "Count", "Del", "Flush"},
}

var faultTargetNames = []string{"data set", "collection", "cache v1", "cache v2"}

func genFault(t *rapid.T) *FaultCase {
	c := &FaultCase{Target: pick(t, faultTargetNames)}
	for i, n := 0, between(t, 2, 14); i < n; i++ {
		c.Ops = append(c.Ops, FaultOp{Op: pick(t, faultTargets[c.Target]), K: S(pick(t, letters[:4])), I: intn(t, 16), Fault: chance(t, 40)})
	}
	return c
}

func runFault(r *R, c *FaultCase) error {
	var n int
	var err error
	switch c.Target {
	case "data set":
		n, err = faultDataset(c)
	case "collection":
		n, err = faultColl(c)
	case "cache v1":
		n, err = faultCache(V1{}, c)
	case "cache v2":
		n, err = faultCache(V2{}, c)
	default:
		return errDiscard
	}
	if err != nil {
		if err == errDiscard {
			return err
		}
		return failf("%s: %v", c.Target, err)
	}
	r.Label("%s", c.Target)
	if n > 0 {
		r.Label("%s failed", c.Target)
		r.NonTrivial()
	}
	return nil
}

func faultDataset(c *FaultCase) (panics int, err error) {
	inner := &faultDS{XDataset: &x2.XDataset{}}
	d := v2ds(x2.NewXDatasetTS(inner))
	tmpl, err := V2{}.TmplFromString("{{a}}{{b}}??a??@@b@@")
	if err != nil {
		return 0, err
	}
	m := map[string]interface{}{}
	for i, op := range c.Ops {
		key := cleanKey(op.K)
		inner.armed = op.Fault
		writes := op.Op == "Set" || op.Op == "Del"
		p := capturePanic(func() {
			switch op.Op {
			case "Set":
				d.Set(key, op.I)
			case "Del":
				d.Del(key)
			case "Clone":
				d.Clone()
			case "String":
				_ = d.String()
			case "GoString":
				_ = d.GoString()
			case "Execute":
				tmpl.Execute(d)
			default:
				for _, n := range dsReads {
					if n == op.Op {
						dsRead(d, n, key)
					}
				}
			}
		})
		inner.armed = false
		if p != nil && !op.Fault {
			return panics, failf("step %d: %s panicked: %v", i, op.Op, p)
		}
		if p != nil {
			panics++
		} else if op.Fault && writes {
			return panics, errDiscard
		} else if op.Op == "Set" {
			m[key] = op.I
		} else if op.Op == "Del" {
			delete(m, key)
		}
		// everything still works
		d.Set("probe", i)
		d.Del("probe")
		for _, k := range letters[:4] {
			v, ok := d.Get(k)
			w, wok := m[k]
			if ok != wok || v != w {
				return panics, failf("after step %d (%s): Get(%q) = %v, %v; expected %v, %v", i, op.Op, k, v, ok, w, wok)
			}
		}
	}
	return panics, nil
}

func faultColl(c *FaultCase) (panics int, err error) {
	coll := V2{}.NewColl("t")
	var l []*faultDS
	arm := func(on bool) {
		for _, f := range l {
			f.armed = on
		}
	}
	for i, op := range c.Ops {
		key := string(op.K)
		f := &faultDS{XDataset: &x2.XDataset{}}
		f.Set(key, op.I)
		var got DS
		arm(op.Fault)
		f.armed = op.Fault
		p := capturePanic(func() {
			switch op.Op {
			case "Push":
				coll.Push(v2ds(f))
			case "Unshift":
				coll.Unshift(v2ds(f))
			case "Pop":
				got = coll.Pop()
			case "Shift":
				got = coll.Shift()
			case "Clone":
				coll.Clone()
			case "String":
				_ = coll.String()
			case "GoString":
				_ = coll.GoString()
			case "Count":
				coll.Count()
			case "Get":
				coll.Get(op.I % 4)
			default:
				for _, n := range collReads {
					if n == op.Op {
						collRead(coll, n, key)
					}
				}
			}
		})
		arm(false)
		f.armed = false
		empty := (op.Op == "Pop" || op.Op == "Shift") && len(l) == 0
		if p != nil && !op.Fault && !empty {
			return panics, failf("step %d: %s panicked: %v", i, op.Op, p)
		}
		if p != nil {
			panics++
		} else {
			var want *faultDS
			switch op.Op {
			case "Push":
				l = append(l[:len(l):len(l)], f)
			case "Unshift":
				l = append([]*faultDS{f}, l...)
			case "Pop":
				if !empty {
					want, l = l[len(l)-1], l[:len(l)-1]
				}
			case "Shift":
				if !empty {
					want, l = l[0], l[1:]
				}
			}
			if want != nil && (got == nil || got.Raw() != interface{}(want)) {
				return panics, failf("step %d: %s returned another element", i, op.Op)
			}
		}
		// everything still works
		probe := v2ds(&x2.XDataset{"probe": i})
		coll.Unshift(probe)
		if x := coll.Shift(); x == nil || x.Raw() != probe.Raw() {
			return panics, failf("after step %d (%s): Unshift and Shift do not give the element back", i, op.Op)
		}
		if n := coll.Count(); n != len(l) {
			return panics, failf("after step %d (%s): Count() = %d, expected %d", i, op.Op, n, len(l))
		}
		for j := range l {
			if x, ok := coll.Get(j); !ok || x.Raw() != interface{}(l[j]) {
				return panics, failf("after step %d (%s): Get(%d) is another element", i, op.Op, j)
			}
		}
	}
	return panics, nil
}

func faultCache(ver Ver, c *FaultCase) (panics int, err error) {
	ca := ver.NewCache(0, 0)
	armed := false
	m := map[string]interface{}{}
	refused := func(k string) bool { return k == "d" }
	ca.SetValidator(func(k string, _ time.Time) bool {
		if armed {
			panic("user validator failure")
		}
		return !refused(k)
	})
	for i, op := range c.Ops {
		key := string(op.K)
		var v interface{}
		var flag bool
		n := -1
		armed = op.Fault
		p := capturePanic(func() {
			switch op.Op {
			case "Set":
				ca.Set(key, op.I)
			case "Get":
				v, flag = ca.Get(key)
			case "Verify":
				n = ca.Verify()
			case "Clean":
				n = ca.Clean(0)
			case "Count":
				n = ca.Count()
			case "Del":
				ca.Del(key)
			case "Flush":
				ca.Flush()
			}
		})
		armed = false
		if p != nil && !op.Fault {
			return panics, failf("step %d: %s panicked: %v", i, op.Op, p)
		}
		if p != nil {
			panics++
		} else {
			_, has := m[key]
			switch op.Op {
			case "Set":
				m[key] = op.I
			case "Get":
				if op.Fault && has {
					return panics, errDiscard // the failure was not passed on
				}
				if has && refused(key) {
					if v != nil || !flag {
						return panics, failf("step %d: Get of a refused entry = %v, %v", i, v, flag)
					}
					delete(m, key)
				} else if v != m[key] || flag {
					return panics, failf("step %d: Get(%q) = %v, %v; expected %v", i, key, v, flag, m[key])
				}
			case "Verify":
				want := 0
				if op.Fault && len(m) > 0 {
					return panics, errDiscard
				}
				for k := range m {
					if refused(k) {
						want++
						delete(m, k)
					}
				}
				if n != want {
					return panics, failf("step %d: Verify() = %d, expected %d", i, n, want)
				}
			case "Clean":
				if n != 0 {
					return panics, failf("step %d: Clean(0) = %d", i, n)
				}
			case "Count":
				if n != len(m) {
					return panics, failf("step %d: Count() = %d, expected %d", i, n, len(m))
				}
			case "Del":
				delete(m, key)
			case "Flush":
				m = map[string]interface{}{}
			}
		}
		// everything still works
		ca.Set("probe", i)
		if v, flag := ca.Get("probe"); v != i || flag {
			return panics, failf("after step %d (%s): Get of the entry just set = %v, %v", i, op.Op, v, flag)
		}
		ca.Del("probe")
		if n := ca.Count(); n != len(m) {
			return panics, failf("after step %d (%s, failing: %v): Count() = %d, expected %d", i, op.Op, op.Fault, n, len(m))
		}
		for k, w := range m {
			if refused(k) {
				continue
			}
			if v, flag := ca.Get(k); v != w || flag {
				return panics, failf("after step %d (%s, failing: %v): Get(%q) = %v, %v; expected %v", i, op.Op, op.Fault, k, v, flag, fmt.Sprint(w))
			}
		}
	}
	return panics, nil
}

func init() {
	Add(Part{Prop: "C20", Name: "faults", Quick: 400000, Rule: "at least one call failed by a panic of the user's code or on an empty collection"},
		genFault, runFault)
}
