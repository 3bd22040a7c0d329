package harness

import "time"

// This file defines the version independent view of the public API that the
// oracles use. v1.go and v2.go adapt the two modules of the repository to it.

// DS is a data set (XDatasetDef) of one of the modules.
type DS interface {
	Raw() interface{}
	Set(key string, v interface{})
	Get(key string) (interface{}, bool)
	GetDataset(key string) (DS, bool)
	GetCollection(key string) (Coll, bool)
	GetString(key string) (string, bool)
	GetBool(key string) (bool, bool)
	GetInt(key string) (int, bool)
	GetFloat(key string) (float64, bool)
	GetTime(key string) (time.Time, bool)
	GetStringCollection(key string) ([]string, bool)
	GetBoolCollection(key string) ([]bool, bool)
	GetIntCollection(key string) ([]int, bool)
	GetFloatCollection(key string) ([]float64, bool)
	GetTimeCollection(key string) ([]time.Time, bool)
	Del(key string)
	Clone() DS
	String() string
	GoString() string
}

// Coll is a collection of data sets (XDatasetCollectionDef).
type Coll interface {
	Raw() interface{}
	Unshift(d DS)
	Shift() DS
	Push(d DS)
	Pop() DS
	Count() int
	Get(i int) (DS, bool)
	GetData(key string) (interface{}, bool)
	GetDataString(key string) (string, bool)
	GetDataInt(key string) (int, bool)
	GetDataBool(key string) (bool, bool)
	GetDataFloat(key string) (float64, bool)
	GetDataTime(key string) (time.Time, bool)
	GetCollection(key string) (Coll, bool)
	Clone() Coll
	String() string
	GoString() string
}

// Tmpl is a template.
type Tmpl interface {
	Raw() interface{}
	LoadString(s string) error
	LoadFile(f string) error
	SetName(name string)
	AddTemplate(name string, t Tmpl)
	GetTemplate(name string) Tmpl    // nil interface if not found
	Execute(d DS) string             // d may be nil
	Clone() Tmpl                     // nil in v1
	Elements(format string) []string // sorted printed forms of the parts of the root
	EditParts(f func(i int, kind int, data string) string)
	String() string
	GoString() string
}

// Lang is a language table.
type Lang interface {
	Raw() interface{}
	LoadXMLFile(f string) error
	LoadXMLString(s string) error
	LoadFile(f string) error
	LoadString(s string) error
	SetName(s string)
	GetName() string
	SetLanguage(tag string)
	GetLanguage() string
	Set(k, v string)
	Get(k string) string
	Del(k string)
	SetStatus(k, v string)
	GetStatus(k string) string
	Entries() map[string]string
	GetXML() string
	String() string
	GoString() string
}

// Cache is an XCache.
type Cache interface {
	Set(k string, v interface{})
	Get(k string) (interface{}, bool)
	Del(k string)
	SetTTL(k string, d time.Duration)
	Count() int
	Clean(p int) int
	Verify() int
	Flush()
	SetValidator(f func(string, time.Time) bool)
	SetMax(n int)
	SetExpire(d time.Duration)
}

// Ver is one of the two modules.
type Ver interface {
	Name() string
	IsV2() bool
	// NewDS makes an empty data set; kinds: "" plain, "t" thread safe around a
	// plain one, "z" zero value thread safe (v1 always makes a plain one).
	NewDS(kind string) DS
	NewColl(kind string) Coll
	WrapTS(d DS) DS
	FromMap(m map[string]interface{}) DS
	FromMaps(m []map[string]interface{}) Coll
	IsDS(v interface{}) (DS, bool)
	IsColl(v interface{}) (Coll, bool)
	NewTmpl() Tmpl
	TmplFromString(s string) (Tmpl, error)
	TmplFromFile(s string) (Tmpl, error)
	NewLang(name, tag string) Lang
	LangFromString(s string) (Lang, error)
	LangFromFile(s string) (Lang, error)
	LangFromXMLString(s string) (Lang, error)
	LangFromXMLFile(s string) (Lang, error)
	NewCache(max int, expire time.Duration) Cache
	SetLog(on bool)
}

type rawer interface{ Raw() interface{} }

// unwrap gives the native value for a value that may be one of the adapters.
func unwrap(v interface{}) interface{} {
	if r, ok := v.(rawer); ok {
		return r.Raw()
	}
	return v
}

func verOf(name string) Ver {
	if name == "v1" {
		return V1{}
	}
	return V2{}
}
