package harness

import (
	"fmt"
	"sort"
	"time"

	x2 "github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
)

// V2 adapts the module github.com/webability-go/xcore/v2.
type V2 struct{}

type v2DS struct{ d x2.XDatasetDef }
type v2Coll struct{ c x2.XDatasetCollectionDef }
type v2Tmpl struct{ t *x2.XTemplate }
type v2Lang struct{ l *x2.XLanguage }
type v2Cache struct{ *x2.XCache }

func v2ds(d x2.XDatasetDef) DS {
	if d == nil {
		return nil
	}
	return v2DS{d}
}

func v2coll(c x2.XDatasetCollectionDef) Coll {
	if c == nil {
		return nil
	}
	return v2Coll{c}
}

func v2raw(d DS) x2.XDatasetDef {
	if d == nil {
		return nil
	}
	return d.Raw().(x2.XDatasetDef)
}

func (w v2DS) Raw() interface{}                   { return w.d }
func (w v2DS) Set(key string, v interface{})      { w.d.Set(key, unwrap(v)) }
func (w v2DS) Get(key string) (interface{}, bool) { return w.d.Get(key) }
func (w v2DS) GetDataset(key string) (DS, bool) {
	d, ok := w.d.GetDataset(key)
	return v2ds(d), ok
}
func (w v2DS) GetCollection(key string) (Coll, bool) {
	c, ok := w.d.GetCollection(key)
	return v2coll(c), ok
}
func (w v2DS) GetString(key string) (string, bool)  { return w.d.GetString(key) }
func (w v2DS) GetBool(key string) (bool, bool)      { return w.d.GetBool(key) }
func (w v2DS) GetInt(key string) (int, bool)        { return w.d.GetInt(key) }
func (w v2DS) GetFloat(key string) (float64, bool)  { return w.d.GetFloat(key) }
func (w v2DS) GetTime(key string) (time.Time, bool) { return w.d.GetTime(key) }
func (w v2DS) GetStringCollection(key string) ([]string, bool) {
	return w.d.GetStringCollection(key)
}
func (w v2DS) GetBoolCollection(key string) ([]bool, bool)     { return w.d.GetBoolCollection(key) }
func (w v2DS) GetIntCollection(key string) ([]int, bool)       { return w.d.GetIntCollection(key) }
func (w v2DS) GetFloatCollection(key string) ([]float64, bool) { return w.d.GetFloatCollection(key) }
func (w v2DS) GetTimeCollection(key string) ([]time.Time, bool) {
	return w.d.GetTimeCollection(key)
}
func (w v2DS) Del(key string)   { w.d.Del(key) }
func (w v2DS) Clone() DS        { return v2ds(w.d.Clone()) }
func (w v2DS) String() string   { return w.d.String() }
func (w v2DS) GoString() string { return w.d.GoString() }

func (w v2Coll) Raw() interface{} { return w.c }
func (w v2Coll) Unshift(d DS)     { w.c.Unshift(v2raw(d)) }
func (w v2Coll) Shift() DS        { return v2ds(w.c.Shift()) }
func (w v2Coll) Push(d DS)        { w.c.Push(v2raw(d)) }
func (w v2Coll) Pop() DS          { return v2ds(w.c.Pop()) }
func (w v2Coll) Count() int       { return w.c.Count() }
func (w v2Coll) Get(i int) (DS, bool) {
	d, ok := w.c.Get(i)
	return v2ds(d), ok
}
func (w v2Coll) GetData(key string) (interface{}, bool)   { return w.c.GetData(key) }
func (w v2Coll) GetDataString(key string) (string, bool)  { return w.c.GetDataString(key) }
func (w v2Coll) GetDataInt(key string) (int, bool)        { return w.c.GetDataInt(key) }
func (w v2Coll) GetDataBool(key string) (bool, bool)      { return w.c.GetDataBool(key) }
func (w v2Coll) GetDataFloat(key string) (float64, bool)  { return w.c.GetDataFloat(key) }
func (w v2Coll) GetDataTime(key string) (time.Time, bool) { return w.c.GetDataTime(key) }
func (w v2Coll) GetCollection(key string) (c Coll, ok bool) {
	cc, ok := w.c.GetCollection(key)
	return v2coll(cc), ok
}
func (w v2Coll) Clone() Coll      { return v2coll(w.c.Clone()) }
func (w v2Coll) String() string   { return w.c.String() }
func (w v2Coll) GoString() string { return w.c.GoString() }

func v2tmpl(t *x2.XTemplate) Tmpl {
	if t == nil {
		return nil
	}
	return v2Tmpl{t}
}

func (w v2Tmpl) Raw() interface{}                { return w.t }
func (w v2Tmpl) LoadString(s string) error       { return w.t.LoadString(s) }
func (w v2Tmpl) LoadFile(s string) error         { return w.t.LoadFile(s) }
func (w v2Tmpl) SetName(name string)             { w.t.Name = name }
func (w v2Tmpl) AddTemplate(name string, t Tmpl) { w.t.AddTemplate(name, t.(v2Tmpl).t) }
func (w v2Tmpl) GetTemplate(name string) Tmpl    { return v2tmpl(w.t.GetTemplate(name)) }
func (w v2Tmpl) Execute(d DS) string             { return w.t.Execute(v2raw(d)) }
func (w v2Tmpl) Clone() Tmpl                     { return v2tmpl(w.t.Clone()) }
func (w v2Tmpl) String() string                  { return w.t.String() }
func (w v2Tmpl) GoString() string                { return w.t.GoString() }
func (w v2Tmpl) Elements(format string) []string {
	var l []string
	if w.t.Root != nil {
		for _, p := range *w.t.Root {
			l = append(l, fmt.Sprintf(format, p))
		}
	}
	sort.Strings(l)
	return l
}

func (w v2Tmpl) EditParts(f func(i int, kind int, data string) string) {
	if w.t.Root == nil {
		return
	}
	for i := range *w.t.Root {
		p := &(*w.t.Root)[i]
		kind := 1
		if p.ParamType == x2.MetaString {
			kind = 0
		}
		p.Data = f(i, kind, p.Data)
	}
}

func (w v2Lang) Raw() interface{}             { return w.l }
func (w v2Lang) LoadXMLFile(f string) error   { return w.l.LoadXMLFile(f) }
func (w v2Lang) LoadXMLString(f string) error { return w.l.LoadXMLString(f) }
func (w v2Lang) LoadFile(f string) error      { return w.l.LoadFile(f) }
func (w v2Lang) LoadString(f string) error    { return w.l.LoadString(f) }
func (w v2Lang) SetName(s string)             { w.l.SetName(s) }
func (w v2Lang) GetName() string              { return w.l.GetName() }
func (w v2Lang) SetLanguage(tag string)       { w.l.SetLanguage(language.MustParse(tag)) }
func (w v2Lang) GetLanguage() string          { return w.l.GetLanguage().String() }
func (w v2Lang) Set(k, v string)              { w.l.Set(k, v) }
func (w v2Lang) Get(k string) string          { return w.l.Get(k) }
func (w v2Lang) Del(k string)                 { w.l.Del(k) }
func (w v2Lang) SetStatus(k, v string)        { w.l.SetStatus(k, v) }
func (w v2Lang) GetStatus(k string) string    { return w.l.GetStatus(k) }
func (w v2Lang) Entries() map[string]string   { return w.l.GetEntries() }
func (w v2Lang) GetXML() string               { return w.l.GetXML() }
func (w v2Lang) String() string               { return w.l.String() }
func (w v2Lang) GoString() string             { return w.l.GoString() }

func (w v2Cache) SetValidator(f func(string, time.Time) bool) { w.XCache.Validator = f }
func (w v2Cache) SetMax(n int)                                { w.XCache.Maxitems = n }
func (w v2Cache) SetExpire(d time.Duration)                   { w.XCache.Expire = d }

func (V2) Name() string { return "v2" }
func (V2) IsV2() bool   { return true }
func (V2) NewDS(kind string) DS {
	switch kind {
	case "t":
		return v2ds(x2.NewXDatasetTS(&x2.XDataset{}))
	case "z":
		return v2ds(&x2.XDatasetTS{})
	case "u":
		return v2ds(&v2UserDS{&x2.XDataset{}})
	}
	return v2ds(&x2.XDataset{})
}
func (V2) NewColl(kind string) Coll {
	switch kind {
	case "u":
		return v2coll(&v2UserColl{&x2.XDatasetCollection{}})
	case "":
		return v2coll(&x2.XDatasetCollection{})
	}
	return v2coll(&x2.XDatasetCollectionTS{})
}
func (V2) WrapTS(d DS) DS                           { return v2ds(x2.NewXDatasetTS(v2raw(d))) }
func (V2) FromMap(m map[string]interface{}) DS      { return v2ds(x2.NewXDataset(m)) }
func (V2) FromMaps(m []map[string]interface{}) Coll { return v2coll(x2.NewXDatasetCollection(m)) }
func (V2) IsDS(v interface{}) (DS, bool) {
	d, ok := v.(x2.XDatasetDef)
	return v2ds(d), ok
}
func (V2) IsColl(v interface{}) (Coll, bool) {
	d, ok := v.(x2.XDatasetCollectionDef)
	return v2coll(d), ok
}
func (V2) NewTmpl() Tmpl { return v2tmpl(x2.NewXTemplate()) }
func (V2) TmplFromString(s string) (Tmpl, error) {
	t, err := x2.NewXTemplateFromString(s)
	return v2tmpl(t), err
}
func (V2) TmplFromFile(s string) (Tmpl, error) {
	t, err := x2.NewXTemplateFromFile(s)
	return v2tmpl(t), err
}
func v2lang(l *x2.XLanguage) Lang {
	if l == nil {
		return nil
	}
	return v2Lang{l}
}
func (V2) NewLang(name, tag string) Lang {
	return v2lang(x2.NewXLanguage(name, language.MustParse(tag)))
}
func (V2) LangFromString(s string) (Lang, error) {
	l, err := x2.NewXLanguageFromString(s)
	return v2lang(l), err
}
func (V2) LangFromFile(s string) (Lang, error) {
	l, err := x2.NewXLanguageFromFile(s)
	return v2lang(l), err
}
func (V2) LangFromXMLString(s string) (Lang, error) {
	l, err := x2.NewXLanguageFromXMLString(s)
	return v2lang(l), err
}
func (V2) LangFromXMLFile(s string) (Lang, error) {
	l, err := x2.NewXLanguageFromXMLFile(s)
	return v2lang(l), err
}
func (V2) NewCache(max int, expire time.Duration) Cache {
	return v2Cache{x2.NewXCache("c", max, expire)}
}
func (V2) SetLog(on bool) { x2.LOG = on }

// v2UserDS and v2UserColl are data sets and collections as a user of the library may
// define them.
type v2UserDS struct{ x2.XDatasetDef }

func (u *v2UserDS) Clone() x2.XDatasetDef { return &v2UserDS{u.XDatasetDef.Clone()} }

type v2UserColl struct{ x2.XDatasetCollectionDef }

func (u *v2UserColl) Clone() x2.XDatasetCollectionDef {
	return &v2UserColl{u.XDatasetCollectionDef.Clone()}
}
