package harness

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Duels: short programs of two or three goroutines, run again and again on fresh objects,
// started together and shifted against each other by a few instructions. What each run
// gives (all results and the content afterwards) must be what some order of the calls,
// executed one after another on such an object, gives.

// DuelCase is such a set of programs.
type DuelCase struct {
	Kind string   `json:"kind"` // ds, coll, lang, cache
	Ver  string   `json:"ver"`
	Sub  string   `json:"sub,omitempty"` // kind of data set
	Init []TSOp   `json:"init"`
	Prog [][]TSOp `json:"prog"`
}

const duelRounds = 400

// duelObj is an object fought for.
type duelObj interface {
	do(op TSOp, n int) interface{}
	state() string
}

var duelKeys = []string{"a", "b"}

type duelDS struct{ d DS }

func (x duelDS) do(op TSOp, n int) interface{} {
	k := duelKeys[op.K&1]
	switch op.Op {
	case "Set":
		x.d.Set(k, n)
	case "Del":
		x.d.Del(k)
	case "Get":
		v, _ := x.d.Get(k)
		return v
	case "GetString":
		v, _ := x.d.GetString(k)
		return v
	case "GetInt":
		v, _ := x.d.GetInt(k)
		return v
	case "String":
		return x.d.String()
	case "Clone":
		return x.d.Clone()
	}
	return nil
}

func (x duelDS) state() string { return x.d.String() }

type duelColl struct {
	ver Ver
	c   Coll
}

func (x duelColl) do(op TSOp, n int) interface{} {
	record := func() DS {
		d := x.ver.NewDS("")
		d.Set("n", n)
		return d
	}
	switch op.Op {
	case "Push":
		x.c.Push(record())
	case "Unshift":
		x.c.Unshift(record())
	case "Pop":
		return x.c.Pop()
	case "Shift":
		return x.c.Shift()
	case "Count":
		return x.c.Count()
	case "Get":
		d, ok := x.c.Get(op.K)
		if !ok {
			return nil
		}
		return d
	case "GetData":
		v, _ := x.c.GetData("n")
		return v
	case "GetDataInt":
		v, _ := x.c.GetDataInt("n")
		return v
	case "String":
		return x.c.String()
	case "Clone":
		return x.c.Clone()
	}
	return nil
}

func (x duelColl) state() string { return x.c.String() }

type duelLang struct{ l Lang }

func (x duelLang) do(op TSOp, n int) interface{} {
	k := duelKeys[op.K&1]
	switch op.Op {
	case "Set":
		x.l.Set(k, langVal(n))
	case "Get":
		return x.l.Get(k)
	case "Del":
		x.l.Del(k)
	case "SetStatus":
		x.l.SetStatus(k, langVal(n))
	case "GetStatus":
		return x.l.GetStatus(k)
	case "SetName":
		x.l.SetName(langVal(n))
	case "GetName":
		return x.l.GetName()
	case "LoadString":
		x.l.LoadString(k + "=" + langVal(n))
	case "GetEntries":
		return x.l.Entries()[k]
	case "GetXML":
		_ = x.l.GetXML()
	case "String":
		_ = x.l.String()
	}
	return nil
}

func (x duelLang) state() string {
	s := x.l.GetName()
	for _, k := range duelKeys {
		s += " " + x.l.Get(k) + "/" + x.l.GetStatus(k)
	}
	return s + fmt.Sprint(len(x.l.Entries()))
}

// duelCache: what is set first is stale by the time of the programs if its number is odd.
type duelCache struct {
	c    Cache
	mark *time.Time
}

func (x duelCache) do(op TSOp, n int) interface{} {
	k := duelKeys[op.K&1]
	switch op.Op {
	case "set":
		x.c.Set(k, n)
	case "get":
		v, _ := x.c.Get(k)
		return v
	case "del":
		x.c.Del(k)
	case "count":
		return x.c.Count()
	case "flush":
		x.c.Flush()
	case "clean0":
		return x.c.Clean(0)
	case "clean100":
		return x.c.Clean(100)
	case "verify":
		return x.c.Verify()
	case "ttl":
		x.c.SetTTL(k, time.Hour)
	case "mark": // all entries are stale
		for *x.mark = time.Now(); !x.mark.Before(time.Now()); {
		}
		*x.mark = time.Now()
	}
	return nil
}

func (x duelCache) state() string {
	s := fmt.Sprint(x.c.Count())
	for _, k := range duelKeys {
		v, _ := x.c.Get(k)
		s += fmt.Sprint(" ", v)
	}
	return s + fmt.Sprint(" ", x.c.Count(), x.c.Clean(100), x.c.Count())
}

var duelOps = map[string][]string{
	"ds":    {"Set", "Set", "Del", "Get", "Get", "GetString", "GetInt", "String", "Clone"},
	"coll":  {"Push", "Push", "Unshift", "Pop", "Pop", "Shift", "Count", "Get", "GetData", "GetDataInt", "String", "Clone"},
	"lang":  {"Set", "Set", "Get", "Get", "Del", "Del", "SetStatus", "GetStatus", "SetName", "GetName", "LoadString", "GetEntries", "GetXML", "String"},
	"cache": {"set", "set", "get", "get", "del", "count", "flush", "clean0", "clean100", "verify", "ttl"},
}

func (c *DuelCase) sane() bool {
	ok := (c.Ver == "v2" || c.Ver == "v1" && c.Kind == "cache") && len(c.Prog) > 0 && len(c.Prog) <= 3 && len(c.Init) <= 10 && duelOps[c.Kind] != nil
	keys := map[int]bool{}
	verify := false
	for i, p := range append([][]TSOp{c.Init}, c.Prog...) {
		ok = ok && (i == 0 || len(p) <= 4 && (len(c.Prog) < 3 || len(p) <= 2))
		for _, op := range p {
			ok = ok && op.K >= 0 && op.K <= 3 && (op.Op != "mark" || i == 0)
			keys[op.K&1] = true
			verify = verify || op.Op == "verify"
		}
	}
	return ok && !(verify && len(keys) > 1) // several entries are verified one by one
}

func genDuel(kind string) func(t *rapid.T) *DuelCase {
	return func(t *rapid.T) *DuelCase {
		c := &DuelCase{Kind: kind, Ver: "v2"}
		if kind == "cache" {
			c.Ver = genVer(t)
		}
		if kind == "" {
			c.Kind = pick(t, []string{"ds", "coll"})
		}
		if c.Kind == "ds" {
			c.Sub = pick(t, []string{"t", "z"})
		}
		ops := duelOps[c.Kind]
		op := func(keys int) TSOp {
			o := TSOp{pick(t, ops), intn(t, keys)}
			if c.Kind == "coll" {
				o.K = intn(t, 3)
			}
			return o
		}
		keys := between(t, 1, 2)
		if c.Kind == "cache" && keys == 2 {
			ops = []string{"set", "set", "get", "get", "del", "count", "flush", "clean0", "clean100", "ttl"}
		}
		for i, n := 0, between(t, 0, 3); i < n; i++ {
			o := op(keys)
			switch c.Kind {
			case "coll":
				o.Op = "Push"
			case "cache":
				o.Op = "set"
			case "lang":
				o.Op = pick(t, []string{"Set", "SetStatus", "SetName"})
			default:
				o.Op = "Set"
			}
			c.Init = append(c.Init, o)
		}
		if c.Kind == "cache" && chance(t, 60) {
			c.Init = append(c.Init, TSOp{"mark", 0})
			if chance(t, 20) {
				c.Init = append(c.Init, TSOp{"set", intn(t, keys)})
			}
		}
		n, most := 2, 3
		if chance(t, 25) {
			n, most = 3, 2
		}
		for g := 0; g < n; g++ {
			var p []TSOp
			for i, m := 0, between(t, 1, most); i < m; i++ {
				p = append(p, op(keys))
			}
			c.Prog = append(c.Prog, p)
		}
		return c
	}
}

func (c *DuelCase) make() duelObj {
	ver := verOf(c.Ver)
	var x duelObj
	switch c.Kind {
	case "ds":
		x = duelDS{ver.NewDS(c.Sub)}
	case "coll":
		x = duelColl{ver, ver.NewColl("t")}
	case "lang":
		x = duelLang{ver.NewLang("", "en")}
	case "cache":
		mark := new(time.Time)
		ca := ver.NewCache(0, 0)
		ca.SetValidator(func(_ string, ctime time.Time) bool { return !ctime.Before(*mark) })
		x = duelCache{ca, mark}
	}
	for i, op := range c.Init {
		x.do(op, i+1)
	}
	return x
}

// duelDo makes a call; an empty collection may answer with a panic.
func duelDo(x duelObj, op TSOp, n int) (res interface{}) {
	defer func() {
		if p := recover(); p != nil {
			res = "panic"
			if op.Op != "Pop" && op.Op != "Shift" {
				res = fmt.Sprintf("panic: %v", p)
			}
		}
	}()
	return x.do(op, n)
}

func (c *DuelCase) outcome(x duelObj, res [][]interface{}) string {
	var b strings.Builder
	for _, l := range res {
		for _, r := range l {
			switch v := unwrap(r).(type) {
			case nil:
				b.WriteString("-")
			case string:
				b.WriteString(v)
			default:
				fmt.Fprint(&b, v)
			}
			b.WriteString(", ")
		}
		b.WriteString("| ")
	}
	return b.String() + "then " + x.state()
}

// orders gives what each order of the calls gives.
func (c *DuelCase) orders() map[string]bool {
	out := map[string]bool{}
	var order []int
	at := make([]int, len(c.Prog))
	var walk func()
	walk = func() {
		done := true
		for g := range c.Prog {
			if at[g] < len(c.Prog[g]) {
				done = false
				at[g]++
				order = append(order, g)
				walk()
				order = order[:len(order)-1]
				at[g]--
			}
		}
		if !done {
			return
		}
		x := c.make()
		res := make([][]interface{}, len(c.Prog))
		for _, g := range order {
			i := len(res[g])
			res[g] = append(res[g], duelDo(x, c.Prog[g][i], 10+g*10+i))
		}
		out[c.outcome(x, res)] = true
	}
	walk()
	return out
}

// meeting lets goroutines go on together.
type meeting struct {
	n          int32
	count, gen atomic.Int32
}

func (m *meeting) wait() {
	g := m.gen.Load()
	if m.count.Add(1) == m.n {
		m.count.Store(0)
		m.gen.Add(1)
		return
	}
	for i := 0; m.gen.Load() == g; i++ {
		if i > 300 {
			runtime.Gosched()
		}
	}
}

//go:noinline
func pause(n int) (x int) {
	for i := 0; i < n; i++ {
		x += i
	}
	return x
}

func runDuel(r *R, c *DuelCase) error {
	if !c.sane() {
		return errDiscard
	}
	possible := c.orders()
	n := len(c.Prog)
	start, end := &meeting{n: int32(n)}, &meeting{n: int32(n)}
	res := make([][]interface{}, n)
	for g := range res {
		res[g] = make([]interface{}, len(c.Prog[g]))
	}
	var x duelObj
	stop := false
	seen := map[string]bool{}
	var bad string
	play := func(g, round int) {
		pause((round*(7+4*g) + g*13) % 97)
		for i, op := range c.Prog[g] {
			res[g][i] = duelDo(x, op, 10+g*10+i)
			if round&1 == 1 {
				pause(round >> 1 * (3 + 2*g) % 31)
			}
		}
	}
	err := parallel(n, func(g int) error {
		for round := 0; ; round++ {
			if g == 0 {
				x = c.make()
				stop = round == duelRounds || bad != ""
			}
			start.wait()
			if stop {
				return nil
			}
			play(g, round)
			end.wait()
			if g == 0 {
				o := c.outcome(x, res)
				seen[o] = true
				if !possible[o] {
					bad = o
				}
			}
		}
	})
	if err != nil {
		return err
	}
	if bad != "" {
		var l []string
		for o := range possible {
			l = append(l, o)
		}
		sort.Strings(l)
		return failf("%s %s: after %v, the calls %v made at the same time give\n  %s\nwhile one after another they give\n  %s", c.Kind, c.Ver, c.Init, c.Prog, bad, strings.Join(l, "\n  "))
	}
	r.Label("%s", c.Kind)
	if len(possible) > 1 {
		r.NonTrivial()
	}
	if len(seen) > 1 {
		r.Label("several outcomes seen")
	}
	return nil
}

func shrinkDuel(c *DuelCase) (out []*DuelCase) {
	for _, p := range shrinkProg(c.Prog) {
		d := *c
		d.Prog = p
		out = append(out, &d)
	}
	for i := range c.Init {
		d := *c
		d.Init = append(append([]TSOp{}, c.Init[:i]...), c.Init[i+1:]...)
		out = append(out, &d)
	}
	return out
}

func init() {
	for _, x := range []struct{ prop, kind string }{{"C19", ""}, {"C25", "cache"}, {"C31", "lang"}} {
		p := Add(Part{Prop: x.prop, Name: "duel", Race: true, Stress: true, Reps: 1, Quick: 4000, Rule: "the order of the calls matters"},
			genDuel(x.kind), runDuel)
		WithShrink(p, shrinkDuel)
	}
}
