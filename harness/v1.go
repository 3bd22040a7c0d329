package harness

import (
	"fmt"
	"sort"
	"time"

	x1 "github.com/webability-go/xcore"
	"golang.org/x/text/language"
)

// V1 adapts the module github.com/webability-go/xcore.
type V1 struct{}

type v1DS struct{ d x1.XDatasetDef }
type v1Coll struct{ c x1.XDatasetCollectionDef }
type v1Tmpl struct{ t *x1.XTemplate }
type v1Lang struct{ l *x1.XLanguage }
type v1Cache struct{ *x1.XCache }

func v1ds(d x1.XDatasetDef) DS {
	if d == nil {
		return nil
	}
	return v1DS{d}
}

func v1coll(c x1.XDatasetCollectionDef) Coll {
	if c == nil {
		return nil
	}
	return v1Coll{c}
}

func v1raw(d DS) x1.XDatasetDef {
	if d == nil {
		return nil
	}
	return d.Raw().(x1.XDatasetDef)
}

func (w v1DS) Raw() interface{}                   { return w.d }
func (w v1DS) Set(key string, v interface{})      { w.d.Set(key, unwrap(v)) }
func (w v1DS) Get(key string) (interface{}, bool) { return w.d.Get(key) }
func (w v1DS) GetDataset(key string) (DS, bool) {
	d, ok := w.d.GetDataset(key)
	return v1ds(d), ok
}
func (w v1DS) GetCollection(key string) (Coll, bool) {
	c, ok := w.d.GetCollection(key)
	return v1coll(c), ok
}
func (w v1DS) GetString(key string) (string, bool)  { return w.d.GetString(key) }
func (w v1DS) GetBool(key string) (bool, bool)      { return w.d.GetBool(key) }
func (w v1DS) GetInt(key string) (int, bool)        { return w.d.GetInt(key) }
func (w v1DS) GetFloat(key string) (float64, bool)  { return w.d.GetFloat(key) }
func (w v1DS) GetTime(key string) (time.Time, bool) { return w.d.GetTime(key) }
func (w v1DS) GetStringCollection(key string) ([]string, bool) {
	return w.d.GetStringCollection(key)
}
func (w v1DS) GetBoolCollection(key string) ([]bool, bool)     { return w.d.GetBoolCollection(key) }
func (w v1DS) GetIntCollection(key string) ([]int, bool)       { return w.d.GetIntCollection(key) }
func (w v1DS) GetFloatCollection(key string) ([]float64, bool) { return w.d.GetFloatCollection(key) }
func (w v1DS) GetTimeCollection(key string) ([]time.Time, bool) {
	return w.d.GetTimeCollection(key)
}
func (w v1DS) Del(key string)   { w.d.Del(key) }
func (w v1DS) Clone() DS        { return v1ds(w.d.Clone()) }
func (w v1DS) String() string   { return w.d.String() }
func (w v1DS) GoString() string { return w.d.GoString() }

func (w v1Coll) Raw() interface{} { return w.c }
func (w v1Coll) Unshift(d DS)     { w.c.Unshift(v1raw(d)) }
func (w v1Coll) Shift() DS        { return v1ds(w.c.Shift()) }
func (w v1Coll) Push(d DS)        { w.c.Push(v1raw(d)) }
func (w v1Coll) Pop() DS          { return v1ds(w.c.Pop()) }
func (w v1Coll) Count() int       { return w.c.Count() }
func (w v1Coll) Get(i int) (DS, bool) {
	d, ok := w.c.Get(i)
	return v1ds(d), ok
}
func (w v1Coll) GetData(key string) (interface{}, bool)   { return w.c.GetData(key) }
func (w v1Coll) GetDataString(key string) (string, bool)  { return w.c.GetDataString(key) }
func (w v1Coll) GetDataInt(key string) (int, bool)        { return w.c.GetDataInt(key) }
func (w v1Coll) GetDataBool(key string) (bool, bool)      { return w.c.GetDataBool(key) }
func (w v1Coll) GetDataFloat(key string) (float64, bool)  { return w.c.GetDataFloat(key) }
func (w v1Coll) GetDataTime(key string) (time.Time, bool) { return w.c.GetDataTime(key) }
func (w v1Coll) GetCollection(key string) (c Coll, ok bool) {
	cc, ok := w.c.GetCollection(key)
	return v1coll(cc), ok
}
func (w v1Coll) Clone() Coll      { return v1coll(w.c.Clone()) }
func (w v1Coll) String() string   { return w.c.String() }
func (w v1Coll) GoString() string { return w.c.GoString() }

func v1tmpl(t *x1.XTemplate) Tmpl {
	if t == nil {
		return nil
	}
	return v1Tmpl{t}
}

func (w v1Tmpl) Raw() interface{}                { return w.t }
func (w v1Tmpl) LoadString(s string) error       { return w.t.LoadString(s) }
func (w v1Tmpl) LoadFile(s string) error         { return w.t.LoadFile(s) }
func (w v1Tmpl) SetName(name string)             { w.t.Name = name }
func (w v1Tmpl) AddTemplate(name string, t Tmpl) { w.t.AddTemplate(name, t.(v1Tmpl).t) }
func (w v1Tmpl) GetTemplate(name string) Tmpl    { return v1tmpl(w.t.GetTemplate(name)) }
func (w v1Tmpl) Execute(d DS) string             { return w.t.Execute(v1raw(d)) }
func (w v1Tmpl) Clone() Tmpl                     { return nil }
func (w v1Tmpl) String() string                  { return w.t.String() }
func (w v1Tmpl) GoString() string                { return w.t.GoString() }
func (w v1Tmpl) Elements(format string) []string {
	var l []string
	if w.t.Root != nil {
		for _, p := range *w.t.Root {
			l = append(l, fmt.Sprintf(format, p))
		}
	}
	sort.Strings(l)
	return l
}

func (w v1Tmpl) EditParts(f func(i int, kind int, data string) string) {
	if w.t.Root == nil {
		return
	}
	for i := range *w.t.Root {
		p := &(*w.t.Root)[i]
		kind := 1
		if p.ParamType == x1.MetaString {
			kind = 0
		}
		p.Data = f(i, kind, p.Data)
	}
}

func (w v1Lang) Raw() interface{}             { return w.l }
func (w v1Lang) LoadXMLFile(f string) error   { return w.l.LoadXMLFile(f) }
func (w v1Lang) LoadXMLString(f string) error { return w.l.LoadXMLString(f) }
func (w v1Lang) LoadFile(f string) error      { return w.l.LoadFile(f) }
func (w v1Lang) LoadString(f string) error    { return w.l.LoadString(f) }
func (w v1Lang) SetName(s string)             { w.l.SetName(s) }
func (w v1Lang) GetName() string              { return w.l.GetName() }
func (w v1Lang) SetLanguage(tag string)       { w.l.SetLanguage(language.MustParse(tag)) }
func (w v1Lang) GetLanguage() string          { return w.l.GetLanguage().String() }
func (w v1Lang) Set(k, v string)              { w.l.Set(k, v) }
func (w v1Lang) Get(k string) string          { return w.l.Get(k) }
func (w v1Lang) Del(k string)                 { w.l.Del(k) }
func (w v1Lang) SetStatus(k, v string)        {}
func (w v1Lang) GetStatus(k string) string    { return "" }
func (w v1Lang) Entries() map[string]string {
	m := map[string]string{}
	for k, v := range w.l.Entries {
		m[k] = v
	}
	return m
}
func (w v1Lang) GetXML() string   { return "" }
func (w v1Lang) String() string   { return w.l.String() }
func (w v1Lang) GoString() string { return w.l.GoString() }

func (w v1Cache) SetValidator(f func(string, time.Time) bool) { w.XCache.Validator = f }
func (w v1Cache) SetMax(n int)                                { w.XCache.Maxitems = n }
func (w v1Cache) SetExpire(d time.Duration)                   { w.XCache.Expire = d }

func (V1) Name() string { return "v1" }
func (V1) IsV2() bool   { return false }
func (V1) NewDS(kind string) DS {
	if kind == "u" {
		return v1ds(&v1UserDS{&x1.XDataset{}})
	}
	return v1ds(&x1.XDataset{})
}
func (V1) NewColl(kind string) Coll {
	if kind == "u" {
		return v1coll(&v1UserColl{&x1.XDatasetCollection{}})
	}
	return v1coll(&x1.XDatasetCollection{})
}
func (V1) WrapTS(d DS) DS                           { return d }
func (V1) FromMap(m map[string]interface{}) DS      { panic("not in v1") }
func (V1) FromMaps(m []map[string]interface{}) Coll { panic("not in v1") }
func (V1) IsDS(v interface{}) (DS, bool) {
	d, ok := v.(x1.XDatasetDef)
	return v1ds(d), ok
}
func (V1) IsColl(v interface{}) (Coll, bool) {
	d, ok := v.(x1.XDatasetCollectionDef)
	return v1coll(d), ok
}
func (V1) NewTmpl() Tmpl { return v1tmpl(x1.NewXTemplate()) }
func (V1) TmplFromString(s string) (Tmpl, error) {
	t, err := x1.NewXTemplateFromString(s)
	return v1tmpl(t), err
}
func (V1) TmplFromFile(s string) (Tmpl, error) {
	t, err := x1.NewXTemplateFromFile(s)
	return v1tmpl(t), err
}
func v1lang(l *x1.XLanguage) Lang {
	if l == nil {
		return nil
	}
	return v1Lang{l}
}
func (V1) NewLang(name, tag string) Lang {
	return v1lang(x1.NewXLanguage(name, language.MustParse(tag)))
}
func (V1) LangFromString(s string) (Lang, error) {
	l, err := x1.NewXLanguageFromString(s)
	return v1lang(l), err
}
func (V1) LangFromFile(s string) (Lang, error) {
	l, err := x1.NewXLanguageFromFile(s)
	return v1lang(l), err
}
func (V1) LangFromXMLString(s string) (Lang, error) {
	l, err := x1.NewXLanguageFromXMLString(s)
	return v1lang(l), err
}
func (V1) LangFromXMLFile(s string) (Lang, error) {
	l, err := x1.NewXLanguageFromXMLFile(s)
	return v1lang(l), err
}
func (V1) NewCache(max int, expire time.Duration) Cache {
	return v1Cache{x1.NewXCache("c", max, expire)}
}
func (V1) SetLog(on bool) { x1.LOG = on }

func (w v1Cache) SetTTL(k string, d time.Duration) {}

// v1UserDS and v1UserColl are data sets and collections as a user of the library may
// define them.
type v1UserDS struct{ x1.XDatasetDef }

func (u *v1UserDS) Clone() x1.XDatasetDef { return &v1UserDS{u.XDatasetDef.Clone()} }

type v1UserColl struct{ x1.XDatasetCollectionDef }

func (u *v1UserColl) Clone() x1.XDatasetCollectionDef {
	return &v1UserColl{u.XDatasetCollectionDef.Clone()}
}
