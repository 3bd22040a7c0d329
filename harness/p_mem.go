package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// --- C36: what was removed is released -------------------------------------------------------

// ChurnCase is a short program that ends with the content it started with, to be repeated.
type ChurnCase struct {
	Ver  string   `json:"ver"`
	Kind string   `json:"kind"` // cache ds coll lang tmpl make
	Sub  string   `json:"sub,omitempty"`
	Base int      `json:"base"`          // elements there all the time
	Max  int      `json:"max,omitempty"` // caches
	Exp  bool     `json:"exp,omitempty"` // entries expire at once
	Val  int      `json:"val,omitempty"` // validators: none, refuses every other key, refuses all
	End  int      `json:"end"`           // how what is left over is removed
	Ops  []string `json:"ops"`
}

var churnOps = map[string][]string{
	"cache": {"set", "set", "new", "new", "get", "get", "getnew", "miss", "del", "delmiss", "ttl", "ttlmiss", "count", "clean0", "clean", "verify", "flush"},
	"ds":    {"set", "set", "new", "new", "get", "miss", "typed", "del", "nest", "nestcoll", "clone", "print", "delmiss"},
	"coll":  {"push", "push", "unshift", "unshift", "pop", "shift", "get", "find", "clone", "print", "setin"},
	"lang":  {"set", "new", "new", "get", "miss", "del", "status", "newstatus", "name", "lang", "text", "xml", "badxml", "entries", "export", "print"},
	"tmpl":  {"load", "load", "bad", "add", "render", "render", "rendernew", "rendernil", "clone", "sub", "subload", "miss", "print", "lang"},
	"make":  {"tmpl", "badtmpl", "lang", "text", "xml", "badxml", "cache", "ds", "coll", "map"},
}

func genChurn(t *rapid.T) *ChurnCase {
	c := &ChurnCase{Ver: genVer(t), Kind: pick(t, []string{"cache", "cache", "cache", "ds", "ds", "coll", "coll", "lang", "lang", "tmpl", "tmpl", "make"})}
	if c.Ver == "v2" {
		c.Sub = pick(t, []string{"", "t", "z"})
	}
	if !chance(t, 30) {
		c.Base = intn(t, 30)
	}
	if c.Kind == "cache" {
		if chance(t, 50) {
			c.Max = orSize(t, 20, between(t, 1, 40), 200)
		}
		c.Exp = chance(t, 25)
		c.Val = weighted(t, []int{4, 1, 1})
	}
	c.End = intn(t, 4)
	for i, n := 0, between(t, 1, 6); i < n; i++ {
		c.Ops = append(c.Ops, pick(t, churnOps[c.Kind]))
	}
	return c
}

// churnPad makes what is put into the objects large enough to be seen.
var churnPad = strings.Repeat("xyz ", 20)

func churnText(i int) string { return fmt.Sprint(i, churnPad) }

// churner runs cycle number i of a case.
type churner func(i int)

func (c *ChurnCase) cache(ver Ver) churner {
	exp := time.Duration(0)
	if c.Exp {
		exp = 1
	}
	x := ver.NewCache(c.Max, exp)
	switch c.Val {
	case 1:
		x.SetValidator(func(k string, _ time.Time) bool { return len(k)%2 == 0 })
	case 2:
		x.SetValidator(func(string, time.Time) bool { return false })
	}
	for i := 0; i < c.Base; i++ {
		x.Set(fmt.Sprint("base", i), i)
	}
	return func(i int) {
		var fresh []string
		for j, op := range c.Ops {
			k := fmt.Sprint("k", (i+j)%4)
			n := fmt.Sprint("n", i, "-", j, churnPad)
			switch op {
			case "set":
				x.Set(k, churnText(i))
			case "new":
				x.Set(n, i)
				fresh = append(fresh, n)
			case "get":
				x.Get(k)
			case "getnew":
				if len(fresh) > 0 {
					x.Get(fresh[0])
				}
			case "miss":
				x.Get(n)
			case "del":
				x.Del(k)
			case "delmiss":
				x.Del(n)
			case "ttl":
				x.SetTTL(k, time.Hour)
			case "ttlmiss":
				x.SetTTL(n, time.Hour)
			case "count":
				x.Count()
			case "clean0":
				x.Clean(0)
			case "clean":
				x.Clean(50)
			case "verify":
				x.Verify()
			case "flush":
				x.Flush()
			}
		}
		if c.Max > 0 && c.End == 0 {
			return // the maximum removes them
		}
		switch {
		case c.End == 3 && len(fresh) > 0:
			x.Flush()
		case c.End == 2 && len(fresh) > 0:
			x.Clean(100)
		case c.End == 1 && (c.Exp || c.Val == 2):
			x.Verify()
		default:
			for _, k := range fresh {
				x.Del(k)
			}
		}
	}
}

func (c *ChurnCase) dataset(ver Ver) churner {
	x := ver.NewDS(c.Sub)
	for i := 0; i < c.Base; i++ {
		x.Set(fmt.Sprint("base", i), i)
	}
	nested := func(i int) DS {
		d := ver.NewDS(c.Sub)
		d.Set("v", churnText(i))
		return d
	}
	return func(i int) {
		var fresh []string
		for j, op := range c.Ops {
			k := fmt.Sprint("k", (i+j)%4)
			n := fmt.Sprint("n", i, "-", j, churnPad)
			switch op {
			case "set":
				x.Set(k, churnText(i))
			case "new":
				x.Set(n, i)
				fresh = append(fresh, n)
			case "get":
				x.Get(k)
				x.Get(k + ">v")
			case "miss":
				x.Get(n)
				x.Get(n + ">" + n)
			case "typed":
				x.GetInt(k)
				x.GetString(k)
				x.GetTime(n)
				x.GetStringCollection(k)
				x.GetDataset(n)
			case "del":
				x.Del(k)
			case "delmiss":
				x.Del(n)
			case "nest":
				x.Set(k, nested(i).Raw())
			case "nestcoll":
				l := ver.NewColl(c.Sub)
				l.Push(nested(i))
				x.Set(k, l.Raw())
			case "clone":
				x.Clone()
			case "print":
				_ = x.String()
				_ = x.GoString()
			}
		}
		for _, k := range fresh {
			if c.End == 0 {
				x.Set(k, nil)
			}
			x.Del(k)
		}
	}
}

func (c *ChurnCase) collection(ver Ver) churner {
	x := ver.NewColl(c.Sub)
	record := func(i int) DS {
		d := ver.NewDS(c.Sub)
		d.Set("v", churnText(i))
		return d
	}
	for i := 0; i < c.Base; i++ {
		x.Push(record(i))
	}
	return func(i int) {
		for _, op := range c.Ops {
			switch op {
			case "push":
				x.Push(record(i))
			case "unshift":
				x.Unshift(record(i))
			case "pop":
				if x.Count() > 0 {
					x.Pop()
				}
			case "shift":
				if x.Count() > 0 {
					x.Shift()
				}
			case "get":
				x.Get(i % 7)
			case "find":
				x.GetData("v")
				x.GetDataString(fmt.Sprint("n", i, churnPad))
				x.GetDataInt("v")
			case "clone":
				x.Clone()
			case "print":
				_ = x.String()
			case "setin":
				if d, ok := x.Get(i % 3); ok {
					d.Set("v", churnText(i))
				}
			}
		}
		for j := 0; x.Count() > c.Base; j++ {
			if c.End == 0 || c.End == 2 && j%2 == 0 {
				x.Pop()
			} else {
				x.Shift()
			}
		}
		for x.Count() < c.Base {
			x.Push(record(i))
		}
	}
}

func (c *ChurnCase) lang(ver Ver) churner {
	x := ver.NewLang("l", "en")
	for i := 0; i < c.Base; i++ {
		x.Set(fmt.Sprint("base", i), fmt.Sprint(i))
	}
	return func(i int) {
		var fresh []string
		for j, op := range c.Ops {
			k := fmt.Sprint("k", (i+j)%4)
			n := fmt.Sprint("n", i, "-", j)
			switch op {
			case "set":
				x.Set(k, churnText(i))
			case "new":
				x.Set(n, churnText(i))
				fresh = append(fresh, n)
			case "get":
				x.Get(k)
			case "miss":
				x.Get(n + churnPad)
				x.GetStatus(n + churnPad)
			case "del":
				x.Del(k)
			case "status":
				x.SetStatus(k, churnText(i))
			case "newstatus":
				x.Set(n, "t")
				x.SetStatus(n, churnText(i))
				fresh = append(fresh, n)
			case "name":
				x.SetName(churnText(i))
			case "lang":
				x.SetLanguage([]string{"en", "fr", "es"}[i%3])
			case "text":
				x.LoadString("# c\n" + n + "=" + churnText(i) + "\nk1=" + churnText(i) + "\n")
				fresh = append(fresh, n)
			case "xml":
				x.LoadXMLString(`<?xml version="1.0"?><language id="l" lang="en"><entry id="` + n + `" status="s">` + churnText(i) + `</entry></language>`)
				fresh = append(fresh, n)
			case "badxml":
				x.LoadXMLString(`<language id="l" lang="en"><entry id="` + n + `">` + churnText(i) + `</entry>`)
			case "entries":
				x.Entries()
			case "export":
				x.GetXML()
			case "print":
				_ = x.String()
				_ = x.GoString()
			}
		}
		for _, k := range fresh {
			x.Del(k)
		}
	}
}

func (c *ChurnCase) template(ver Ver) churner {
	src := func(i int) string {
		// the names declared are always the same: a load keeps those it does not declare
		return fmt.Sprintf("%s{{a}}&&s%d&&@@l:r@@??q%d??##e%d##%%-- %d --%%[[s%d]]{{z}}[[]][[r]]{{v}}-[[]]", churnText(i), i, i, i, i, i%4)
	}
	data := func(i int) DS {
		d := ver.NewDS(c.Sub)
		d.Set("a", churnText(i))
		l := ver.NewColl(c.Sub)
		for j := 0; j < 2; j++ {
			r := ver.NewDS("")
			r.Set("v", i+j)
			l.Push(r)
		}
		d.Set("l", l.Raw())
		return d
	}
	x, err := ver.TmplFromString(src(0))
	if err != nil {
		panic(failf("%s: %v", ver.Name(), err))
	}
	base := data(0)
	return func(i int) {
		for j, op := range c.Ops {
			switch op {
			case "load":
				x.LoadString(src(i*10 + j))
			case "bad":
				x.LoadString(src(i) + "[[x]]")
			case "add":
				s, err := ver.TmplFromString(src(i))
				if err == nil {
					x.AddTemplate(fmt.Sprint("sub", j%2), s)
				}
			case "render":
				x.Execute(base)
			case "rendernew":
				x.Execute(data(i))
			case "rendernil":
				x.Execute(nil)
			case "clone":
				x.Clone()
			case "sub":
				x.GetTemplate("r")
				if s := x.GetTemplate("sub0"); s != nil {
					s.Execute(base)
				}
			case "subload":
				if s := x.GetTemplate("r"); s != nil {
					s.LoadString("{{v}}" + churnText(i))
				}
			case "miss":
				x.GetTemplate(fmt.Sprint("n", i, churnPad))
			case "print":
				_ = x.String()
				_ = x.GoString()
			case "lang":
				d := data(i)
				l := ver.NewLang("l", "en")
				l.Set("e0", churnText(i))
				d.Set("#", l.Raw())
				x.Execute(d)
			}
		}
	}
}

func (c *ChurnCase) make(ver Ver) churner {
	return func(i int) {
		for j, op := range c.Ops {
			n := fmt.Sprint("n", i, "-", j, churnPad)
			switch op {
			case "tmpl":
				ver.TmplFromString(n + "{{a}}[[s]]" + n + "[[]]")
			case "badtmpl":
				ver.TmplFromString(n + "{{a}}[[s]]" + n)
			case "lang":
				ver.NewLang(n, "en").Set(n, n)
			case "text":
				ver.LangFromString(n + "=" + n)
			case "xml":
				ver.LangFromXMLString(`<language id="` + n + `" lang="en"><entry id="` + n + `">` + n + `</entry></language>`)
			case "badxml":
				ver.LangFromXMLString(`<language id="` + n + `" lang="en"><entry id="` + n + `">` + n + `</entry>`)
			case "cache":
				x := ver.NewCache(j, time.Hour)
				x.Set(n, n)
				x.Get(n)
			case "ds":
				d := ver.NewDS(c.Sub)
				d.Set(n, n)
				_ = d.String()
			case "coll":
				l := ver.NewColl(c.Sub)
				d := ver.NewDS(c.Sub)
				d.Set(n, n)
				l.Push(d)
				l.Clone()
			case "map":
				if ver.IsV2() {
					ver.FromMap(map[string]interface{}{n: map[string]interface{}{n: n}})
				}
			}
		}
	}
}

func (c *ChurnCase) churner(ver Ver) churner {
	switch c.Kind {
	case "cache":
		return c.cache(ver)
	case "ds":
		return c.dataset(ver)
	case "coll":
		return c.collection(ver)
	case "lang":
		return c.lang(ver)
	case "tmpl":
		return c.template(ver)
	}
	return c.make(ver)
}

// heapInUse is the memory held after everything not reachable was collected.
func heapInUse() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// churnSlack is the growth allowed: unsteady sizes of maps, slices and of the harness itself.
const churnSlack = 64 << 10

// churned is the number of cycles run so far.
var churned int

func runChurn(r *R, c *ChurnCase) error {
	ver := verOf(c.Ver)
	var grown int64
	var gor, n int
	// Anything else in the process could disturb one measurement, hardly four.
	for try := 0; try < 4; try++ {
		gor = runtime.NumGoroutine()
		f := c.churner(ver)
		n = 2000
		at := churned // nothing made in this process before comes again
		churned += 4 * n
		for i := 0; i < n; i++ {
			f(at + i)
		}
		before := heapInUse()
		for i := n; i < 4*n; i++ {
			f(at + i)
		}
		grown = heapInUse() - before
		runtime.KeepAlive(f)
		for w := 0; runtime.NumGoroutine() > gor+1 && w < 100; w++ {
			time.Sleep(10 * time.Millisecond)
		}
		gor = runtime.NumGoroutine() - gor
		if grown < churnSlack && gor <= 1 {
			break
		}
	}
	r.Label("%s", c.Kind)
	for _, op := range c.Ops {
		r.Label("%s %s", c.Kind, op)
	}
	r.NonTrivial()
	if gor > 1 {
		return failf("%s %s: repeating %v %d times leaves %d goroutines behind", c.Ver, c.Kind, c.Ops, 4*n, gor)
	}
	if grown >= churnSlack {
		return failf("%s %s: with the same content as before, %d more repetitions of %v hold %d more bytes", c.Ver, c.Kind, 3*n, c.Ops, grown)
	}
	return nil
}

// FlushCase fills a cache and empties it.
type FlushCase struct {
	Ver  string `json:"ver"`
	Max  int    `json:"max,omitempty"`
	Exp  bool   `json:"exp,omitempty"`
	N    int    `json:"n"`
	Gets int    `json:"gets"` // every so many are read, given a TTL, deleted
	TTLs int    `json:"ttls"`
	Dels int    `json:"dels"`
}

func genFlush(t *rapid.T) *FlushCase {
	c := &FlushCase{Ver: genVer(t), N: orSize(t, 10, between(t, 500, 3000), 3000), Exp: chance(t, 30)}
	if chance(t, 30) {
		c.Max = c.N * between(t, 1, 3) / 2
	}
	c.Gets, c.TTLs, c.Dels = between(t, 2, 9), between(t, 2, 9), between(t, 2, 9)
	return c
}

func runFlush(r *R, c *FlushCase) error {
	if c.N < 100 || c.Gets < 1 || c.TTLs < 1 || c.Dels < 1 || c.Max < 0 {
		return errDiscard
	}
	exp := time.Duration(0)
	if c.Exp {
		exp = time.Hour
	}
	key := func(i int) string { return fmt.Sprint(i) + strings.Repeat(churnPad, 5) }
	var full, left int64
	for try := 0; try < 4; try++ {
		x := verOf(c.Ver).NewCache(c.Max, exp)
		before := heapInUse()
		for i := 0; i < c.N; i++ {
			x.Set(key(i), churnText(i))
		}
		for i := 0; i < c.N; i++ {
			if i%c.Gets == 0 {
				x.Get(key(i))
			}
			if i%c.TTLs == 0 {
				x.SetTTL(key(i), time.Hour)
			}
			if i%c.Dels == 0 {
				x.Del(key(i))
			}
		}
		full = heapInUse() - before
		x.Flush()
		left = heapInUse() - before
		runtime.KeepAlive(x)
		if left < full/4 {
			break
		}
	}
	if full < 4*churnSlack {
		return errDiscard
	}
	r.NonTrivial()
	r.Label("%s", c.Ver)
	if left >= full/4 {
		return failf("%s: the cache held %d bytes, after Flush it still holds %d", c.Ver, full, left)
	}
	return nil
}

// FilesCase loads files again and again.
type FilesCase struct {
	Ver string   `json:"ver"`
	Ops []FileOp `json:"ops"`
}

// FileOp is a load of a file.
type FileOp struct {
	Kind string `json:"kind"` // tmpl text xml
	New  bool   `json:"new"`  // by the constructor
	What string `json:"what"` // good bad empty missing dir
}

func genFiles(t *rapid.T) *FilesCase {
	c := &FilesCase{Ver: genVer(t)}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		c.Ops = append(c.Ops, FileOp{pick(t, []string{"tmpl", "text", "xml"}), bits(t, 1) == 1, pick(t, []string{"good", "bad", "empty", "missing", "dir"})})
	}
	return c
}

// openFiles is the number of files this process has open.
func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(l)
}

func runFiles(r *R, c *FilesCase) error {
	dir, err := os.MkdirTemp(scratch, "c36")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	texts := map[string]string{
		"tmpl good": "a{{b}}[[c]]d[[]]", "tmpl bad": "a[[c]]", "tmpl empty": "",
		"text good": "a=b\n", "text bad": "a\n", "text empty": "",
		"xml good": `<language id="a" lang="en"><entry id="a">b</entry></language>`, "xml bad": `<language><entry`, "xml empty": "",
	}
	for name, text := range texts {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0600); err != nil {
			panic(err)
		}
	}
	ver := verOf(c.Ver)
	round := func() {
		for _, op := range c.Ops {
			path := filepath.Join(dir, op.Kind+" "+op.What)
			if op.What == "dir" {
				path = dir
			}
			switch {
			case op.Kind == "tmpl" && op.New:
				ver.TmplFromFile(path)
			case op.Kind == "tmpl":
				ver.NewTmpl().LoadFile(path)
			case op.Kind == "text" && op.New:
				ver.LangFromFile(path)
			case op.Kind == "text":
				ver.NewLang("l", "en").LoadFile(path)
			case op.New:
				ver.LangFromXMLFile(path)
			default:
				ver.NewLang("l", "en").LoadXMLFile(path)
			}
		}
	}
	round()
	// a collection would close files that were forgotten
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	left := 0
	for try := 0; try < 4; try++ {
		before := openFiles()
		for i := 0; i < 20; i++ {
			round()
		}
		if left = openFiles() - before; left < 20 {
			break
		}
	}
	r.NonTrivial()
	for _, op := range c.Ops {
		r.Label("%s %s", op.Kind, op.What)
	}
	if left >= 20 {
		return failf("%s: loading %v twenty times leaves %d files open", c.Ver, c.Ops, left)
	}
	return nil
}

func init() {
	Add(Part{Prop: "C36", Name: "churn", Quick: 480, Rule: "every case: a program of at least one call repeated 8 000 times"}, genChurn, runChurn)
	Add(Part{Prop: "C36", Name: "flush", Quick: 160, Rule: "the cache held at least 256 KB before the flush"}, genFlush, runFlush)
	Add(Part{Prop: "C36", Name: "files", Quick: 4000, Rule: "every case: loads repeated twenty times"}, genFiles, runFiles)
}
