package harness

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// S is a string that survives JSON even when it is not valid UTF-8.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString([]byte(s))})
}

func (s *S) UnmarshalJSON(b []byte) error {
	var str string
	if json.Unmarshal(b, &str) == nil {
		*s = S(str)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	x, err := hex.DecodeString(m["hex"])
	*s = S(x)
	return err
}

// Val describes a value stored in a data set.
type Val struct {
	K    string  `json:"k"` // nil bool int int8 .. uint64 float32 float64 string time strings bools ints floats times stringer bytes struct map error ds coll lang
	I    int64   `json:"i,omitempty"`
	U    uint64  `json:"u,omitempty"`
	F    string  `json:"f,omitempty"`
	S    S       `json:"s,omitempty"`
	B    bool    `json:"b,omitempty"`
	SS   []S     `json:"ss,omitempty"`
	IS   []int64 `json:"is,omitempty"`
	Kind string  `json:"kind,omitempty"` // ds: "", t, z, u; coll: "", t, u
	M    []KV    `json:"m,omitempty"`
	L    []Val   `json:"l,omitempty"`
}

// KV is an entry of a data set.
type KV struct {
	K S   `json:"k"`
	V Val `json:"v"`
}

type stringer string

func (s stringer) String() string { return string(s) }

type record struct {
	A int
	B string
}

type failure string

func (f failure) Error() string { return string(f) }

func floatVal(kind string, f float64) Val {
	return Val{K: kind, F: strconv.FormatFloat(f, 'x', -1, 64)}
}

func timeOf(i int64) time.Time {
	if i == math.MinInt64 {
		return time.Time{}
	}
	return time.Unix(i, 0).UTC()
}

var zones = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -8*3600)}

// Native gives the Go value of a scalar.
func (v *Val) Native() interface{} {
	f := func() float64 {
		x, _ := strconv.ParseFloat(v.F, 64)
		return x
	}
	switch v.K {
	case "nil", "":
		return nil
	case "bool":
		return v.B
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.U)
	case "uint8":
		return uint8(v.U)
	case "uint16":
		return uint16(v.U)
	case "uint32":
		return uint32(v.U)
	case "uint64":
		return v.U
	case "float32":
		return float32(f())
	case "float64":
		return f()
	case "string":
		return string(v.S)
	case "stringer":
		return stringer(v.S)
	case "time":
		t := timeOf(v.I)
		if v.U > 0 { // with nanoseconds and a zone
			t = t.Add(time.Duration(v.U % 1e9)).In(zones[v.U%3])
		}
		return t
	case "bytes":
		return []byte(v.S)
	case "struct":
		return record{int(v.I), string(v.S)}
	case "complex":
		return complex(float64(v.I), float64(v.I&1))
	case "array":
		return [2]int{int(v.I), 1}
	case "map":
		return map[string]int{string(v.S): int(v.I)}
	case "error":
		return failure(v.S)
	case "strings":
		l := []string{}
		for _, s := range v.SS {
			l = append(l, string(s))
		}
		return l
	case "bools":
		l := []bool{}
		for _, i := range v.IS {
			l = append(l, i&1 == 1)
		}
		return l
	case "ints":
		l := []int{}
		for _, i := range v.IS {
			l = append(l, int(i))
		}
		return l
	case "floats":
		l := []float64{}
		for _, i := range v.IS {
			l = append(l, float64(i)/4)
		}
		return l
	case "times":
		l := []time.Time{}
		for _, i := range v.IS {
			l = append(l, timeOf(i))
		}
		return l
	}
	panic("harness: bad value kind " + v.K)
}

// --- model ------------------------------------------------------------------

// MDS is the model of a data set. Values: native scalars, *MDS, *MColl, *MLang.
type MDS struct {
	Kind string
	M    map[string]interface{}
	real DS
}

// MColl is the model of a collection.
type MColl struct {
	Kind string
	L    []*MDS
	real Coll
}

// MLang is the model of a language table stored in a data set.
type MLang struct {
	M    map[string]string
	real Lang
}

func (d *MDS) join(format string) string {
	var l []string
	for k, v := range d.M {
		l = append(l, k+":"+fmt.Sprintf(format, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (d *MDS) String() string   { return "xcore.XDataset{" + d.join("%v") + "}" }
func (d *MDS) GoString() string { return "#xcore.XDataset{" + d.join("%#v") + "}" }

func (c *MColl) String() string {
	s := "XDatasetCollection["
	if c.Kind == "t" {
		s = "XDatasetCollectionTS["
	}
	for i, d := range c.L {
		s += strconv.Itoa(i) + ":" + d.String() + " "
	}
	return s + "]"
}
func (c *MColl) GoString() string { return c.String() }

func (m *MLang) join(format string) string {
	var l []string
	for k, v := range m.M {
		l = append(l, k+":"+fmt.Sprintf(format, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
func (m *MLang) String() string   { return "xcore.XLanguage{" + m.join("%v") + "}" }
func (m *MLang) GoString() string { return "#xcore.XLanguage{" + m.join("%#v") + "}" }

// canonIndex decides how a path step indexes a collection: ok if it is the plain
// decimal form of a non negative number; vague if the documentation does not say.
func canonIndex(step string) (i int, ok, vague bool) {
	n, err := strconv.Atoi(step)
	if err != nil {
		return 0, false, false
	}
	if strconv.Itoa(n) != step {
		return 0, false, true
	}
	return n, true, false
}

type vagueness struct{ what string }

// lookup follows a path. It panics with vagueness for steps the documentation leaves
// open (such as +1 or 01 as an index).
func (d *MDS) lookup(path string) (interface{}, bool) {
	steps := strings.Split(path, ">")
	cur := d
	for i := 0; i < len(steps); i++ {
		v, ok := cur.M[steps[i]]
		if !ok {
			return nil, false
		}
		if i == len(steps)-1 {
			return v, true
		}
		switch x := v.(type) {
		case *MDS:
			cur = x
		case *MColl:
			i++
			n, ok, vague := canonIndex(steps[i])
			if vague {
				panic(vagueness{"collection index " + steps[i]})
			}
			if !ok || n < 0 || n >= len(x.L) {
				return nil, false
			}
			if i == len(steps)-1 {
				return x.L[n], true
			}
			cur = x.L[n]
		default:
			return nil, false
		}
	}
	return nil, false
}

// deep copies the model.
func (d *MDS) clone() *MDS {
	c := &MDS{Kind: d.Kind, M: map[string]interface{}{}}
	for k, v := range d.M {
		c.M[k] = cloneModel(v)
	}
	return c
}

func (c *MColl) clone() *MColl {
	n := &MColl{Kind: c.Kind}
	for _, d := range c.L {
		n.L = append(n.L, d.clone())
	}
	return n
}

func cloneModel(v interface{}) interface{} {
	switch x := v.(type) {
	case *MDS:
		return x.clone()
	case *MColl:
		return x.clone()
	}
	return v
}

// build makes the real value and its model from a description.
func build(ver Ver, v *Val) (real, model interface{}) {
	switch v.K {
	case "ds":
		kind := v.Kind
		if !ver.IsV2() && kind != "u" {
			kind = ""
		}
		d := ver.NewDS(kind)
		m := &MDS{Kind: kind, M: map[string]interface{}{}, real: d}
		for i := range v.M {
			k := strings.ReplaceAll(string(v.M[i].K), ">", "_")
			r, mm := build(ver, &v.M[i].V)
			d.Set(k, r)
			m.M[k] = mm
		}
		return d, m
	case "lang":
		l := ver.NewLang("l", "en")
		m := &MLang{M: map[string]string{}, real: l}
		for i := range v.M {
			l.Set(string(v.M[i].K), string(v.M[i].V.S))
			m.M[string(v.M[i].K)] = string(v.M[i].V.S)
		}
		return l, m
	case "coll":
		kind := v.Kind
		if !ver.IsV2() && kind != "u" {
			kind = ""
		}
		if kind == "z" {
			kind = "t"
		}
		c := ver.NewColl(kind)
		m := &MColl{Kind: kind, real: c}
		for i := range v.L {
			if v.L[i].K != "ds" {
				continue
			}
			r, mm := build(ver, &v.L[i])
			c.Push(r.(DS))
			m.L = append(m.L, mm.(*MDS))
		}
		return c, m
	}
	n := v.Native()
	return n, n
}

func buildDS(ver Ver, v *Val) (DS, *MDS) {
	r, m := build(ver, v)
	return r.(DS), m.(*MDS)
}
