package harness

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	x2 "github.com/webability-go/xcore/v2"
	"pgregory.net/rapid"
)

// parallel runs f for 0..n-1 at once, turning panics into errors.
func parallel(n int, f func(g int) error) error {
	var wg sync.WaitGroup
	errs := make([]error, n)
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					if ke, ok := x.(*kindErr); ok {
						errs[g] = ke
					} else {
						errs[g] = &kindErr{"panic", fmt.Sprintf("panic: %v\n%s", x, trimStack(debug.Stack()))}
					}
				}
			}()
			<-start
			errs[g] = f(g)
		}(g)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// history records calls with their real time order.
type history struct {
	clock atomic.Int64
	ops   [][]porcupine.Operation // by goroutine
}

func newHistory(n int) *history { return &history{ops: make([][]porcupine.Operation, n)} }

func (h *history) call() int64 { return h.clock.Add(1) }

func (h *history) ret(g int, call int64, in, out interface{}) {
	h.ops[g] = append(h.ops[g], porcupine.Operation{ClientId: g, Input: in, Output: out, Call: call, Return: h.clock.Add(1)})
}

// add records an operation of a past interval as one of another client.
func (h *history) add(g int, call, ret int64, in, out interface{}) {
	h.ops[g] = append(h.ops[g], porcupine.Operation{ClientId: g, Input: in, Output: out, Call: call, Return: ret})
}

func (h *history) all() []porcupine.Operation {
	var l []porcupine.Operation
	for _, o := range h.ops {
		l = append(l, o...)
	}
	return l
}

func (h *history) text() string {
	l := h.all()
	sort.Slice(l, func(i, j int) bool { return l[i].Call < l[j].Call })
	var b strings.Builder
	for _, o := range l {
		fmt.Fprintf(&b, "  [%d,%d] goroutine %d: %v -> %v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
	}
	return b.String()
}

// check decides whether some one-after-another order explains the history.
func (h *history) check(m porcupine.Model) error {
	if porcupine.CheckOperationsTimeout(m, h.all(), 20*time.Second) == porcupine.Illegal {
		return failf("no one-after-another order of the calls explains the results:\n%s", h.text())
	}
	return nil
}

// spin uses a little time, letting other goroutines go ahead.
func spin(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// --- C25 ------------------------------------------------------------------------------

const ckeys = 4

// CacheConcCase is a cache used by several goroutines.
type CacheConcCase struct {
	Ver   string      `json:"ver"`
	Mode  string      `json:"mode"` // how entries are stale: valid, expire, ttl
	Max   int         `json:"max,omitempty"`
	Stale []int       `json:"stale"`
	Live  []int       `json:"live"`
	Spin  int         `json:"spin"`
	Prog  [][]CacheOp `json:"prog"`
	After []CacheOp   `json:"after,omitempty"`
}

type cacheIn struct {
	op  string
	key int
	val int
}

func (c cacheIn) String() string { return fmt.Sprintf("%s k%d %d", c.op, c.key, c.val) }

type cacheOut struct {
	val  int
	flag bool
}

// cacheModel: the state holds for every key 0, or twice its value, plus one if stale.
func cacheModel(init [ckeys]int) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s := state.([ckeys]int)
			in, out := input.(cacheIn), output.(cacheOut)
			count := func(stale bool) (n int) {
				for _, v := range s {
					if v != 0 && (!stale || v&1 == 1) {
						n++
					}
				}
				return n
			}
			switch in.op {
			case "set":
				s[in.key] = in.val * 2
			case "get":
				switch v := s[in.key]; {
				case v == 0:
					// a get that found the same stale entry as another one may say so too
					return out == cacheOut{} || out == cacheOut{0, true} && init[in.key]&1 == 1, s
				case v&1 == 1:
					s[in.key] = 0
					return out == cacheOut{0, true}, s
				default:
					return out == cacheOut{v / 2, false}, s
				}
			case "del":
				s[in.key] = 0
			case "drop": // one entry of a Verify
				if s[in.key]&1 == 1 {
					s[in.key] = 0
				}
			case "flush":
				s = [ckeys]int{}
			case "count":
				return out.val == count(false), s
			case "clean0": // over age: not with a validator
				n := count(true)
				for k := range s {
					if s[k]&1 == 1 {
						s[k] = 0
					}
				}
				return out.val == n, s
			case "clean0v":
				return out.val == 0, s
			case "clean100":
				n := count(false)
				return out.val == n, [ckeys]int{}
			}
			return true, s
		},
	}
}

func genCacheConc(t *rapid.T) *CacheConcCase {
	c := &CacheConcCase{Ver: genVer(t), Spin: pick(t, []int{0, 1, 3, 20, 60})}
	c.Mode = pick(t, []string{"valid", "valid", "expire", "ttl"})
	if c.Ver == "v1" && c.Mode == "ttl" {
		c.Mode = "expire"
	}
	if chance(t, 30) {
		c.Max = 200
	}
	nk := between(t, 1, ckeys)
	for k := 0; k < nk; k++ {
		switch weighted(t, []int{2, 4, 2}) {
		case 1:
			c.Stale = append(c.Stale, k)
		case 2:
			c.Live = append(c.Live, k)
		}
	}
	w := []int{8, 8, 2, 0, 0, 0, 0, 1}
	if chance(t, 50) {
		w = []int{8, 8, 2, 2, 1, 2, 2, 1}
	}
	for g, n := 0, between(t, 2, 4); g < n; g++ {
		var p []CacheOp
		for i, m := 0, between(t, 1, 5); i < m; i++ {
			op := CacheOp{K: intn(t, nk)}
			switch weighted(t, w) {
			case 0:
				op.Op = "set"
			case 1:
				op.Op = "get"
			case 2:
				op.Op = "del"
			case 3:
				op.Op = "count"
			case 4:
				op.Op = "flush"
			case 5:
				op.Op = "clean"
				op.N = pick(t, []int{0, 0, 100})
			case 6:
				op.Op = "verify"
			case 7:
				op.Op = "ttl"
			}
			p = append(p, op)
		}
		c.Prog = append(c.Prog, p)
	}
	return c
}

// prepare makes the cache with its initial entries, inside a bubble.
func (c *CacheConcCase) prepare(ver Ver, val func(k int) interface{}) Cache {
	var exp time.Duration
	if c.Mode == "expire" {
		exp = expiry(1)
	}
	ca := ver.NewCache(c.Max, exp)
	for _, k := range c.Stale {
		ca.Set(keyName(k), val(k))
		if c.Mode == "ttl" {
			ca.SetTTL(keyName(k), expiry(1))
		}
	}
	time.Sleep(3 * unit)
	start := time.Now()
	if c.Mode == "valid" {
		ca.SetValidator(func(_ string, ctime time.Time) bool {
			spin(c.Spin)
			return !ctime.Before(start)
		})
	}
	for _, k := range c.Live {
		ca.Set(keyName(k), val(k))
	}
	return ca
}

func (c *CacheConcCase) sane() bool {
	ok := (c.Ver == "v1" || c.Ver == "v2") && c.Max >= 0 && c.Spin >= 0 && c.Spin < 1000
	for _, l := range [][]int{c.Stale, c.Live} {
		for _, k := range l {
			ok = ok && k >= 0 && k < 1000
		}
	}
	for _, p := range append([][]CacheOp{c.After}, c.Prog...) {
		for _, op := range p {
			ok = ok && op.K >= 0 && op.K < 1000 && op.N >= 0 && op.N <= 100
		}
	}
	return ok
}

func runCacheConc(r *R, c *CacheConcCase) error {
	if !c.sane() || (c.Max > 0 && c.Max < 50) {
		return errDiscard
	}
	ver := verOf(c.Ver)
	h := newHistory(len(c.Prog) + 1)
	var init [ckeys]int
	var dropped atomic.Int64 // stale entries reported as removed by Clean(0) and Verify
	err := inBubble(func() error {
		ca := c.prepare(ver, func(k int) interface{} { return k + 1 })
		for _, k := range c.Stale {
			init[k%ckeys] = (k+1)*2 + 1
		}
		for _, k := range c.Live {
			init[k%ckeys] = (k + 1) * 2
		}
		get := func(g, k int) error {
			call := h.call()
			v, flag := ca.Get(keyName(k))
			out := cacheOut{flag: flag}
			if v != nil {
				out.val = v.(int)
			}
			h.ret(g, call, cacheIn{"get", k, 0}, out)
			return nil
		}
		err := parallel(len(c.Prog), func(g int) error {
			for i, op := range c.Prog[g] {
				k := op.K % ckeys
				call := h.call()
				switch op.Op {
				case "set":
					v := 10 + g*10 + i
					ca.Set(keyName(k), v)
					h.ret(g, call, cacheIn{"set", k, v}, cacheOut{})
				case "get":
					get(g, k)
				case "del":
					ca.Del(keyName(k))
					h.ret(g, call, cacheIn{"del", k, 0}, cacheOut{})
				case "count":
					h.ret(g, call, cacheIn{"count", 0, 0}, cacheOut{val: ca.Count()})
				case "flush":
					ca.Flush()
					h.ret(g, call, cacheIn{"flush", 0, 0}, cacheOut{})
				case "clean":
					name := "clean100"
					p := 100
					if op.N == 0 {
						p, name = 0, "clean0"
						if c.Mode == "valid" {
							name = "clean0v"
						}
					}
					n := ca.Clean(p)
					h.ret(g, call, cacheIn{name, 0, 0}, cacheOut{val: n})
					if p == 0 {
						dropped.Add(int64(n))
					}
				case "verify":
					n := ca.Verify()
					dropped.Add(int64(n))
					if n < 0 || n > ckeys {
						return failf("Verify() = %d", n)
					}
					ret := h.call()
					for k := 0; k < ckeys; k++ {
						h.add(g, call, ret, cacheIn{"drop", k, 0}, cacheOut{})
					}
				case "ttl":
					if c.Mode != "ttl" {
						ca.SetTTL(keyName(k), expiry(1000))
					}
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
		stale := 0
		for _, v := range init {
			stale += v & 1
		}
		if n := dropped.Load(); n > int64(stale) {
			return failf("Verify and Clean reported %d entries removed, only %d were stale", n, stale)
		}
		// what is there now
		g := len(c.Prog)
		call := h.call()
		h.ret(g, call, cacheIn{"count", 0, 0}, cacheOut{val: ca.Count()})
		for k := 0; k < ckeys; k++ {
			get(g, k)
		}
		call = h.call()
		h.ret(g, call, cacheIn{"clean100", 0, 0}, cacheOut{val: ca.Clean(100)})
		call = h.call()
		h.ret(g, call, cacheIn{"count", 0, 0}, cacheOut{val: ca.Count()})
		return nil
	})
	if err == nil {
		err = h.check(cacheModel(init))
	}
	if err != nil {
		return failKind(err, "%s, %s: %v", c.Ver, c.Mode, err)
	}
	r.Label("%s %s", c.Ver, c.Mode)
	busy := 0
	for _, p := range c.Prog {
		if len(p) > 0 {
			busy++
		}
	}
	if busy > 1 && len(c.Stale)+len(c.Live) > 0 {
		r.NonTrivial()
	}
	return nil
}

// failKind adds to the text of an error keeping its kind.
func failKind(err error, format string, a ...interface{}) error {
	return &kindErr{kindOf(err), fmt.Sprintf(format, a...)}
}

func genCacheCrowd(t *rapid.T) *CacheConcCase {
	c := &CacheConcCase{Ver: genVer(t), Spin: pick(t, []int{0, 1, 5}), Mode: pick(t, []string{"valid", "expire"})}
	switch weighted(t, []int{3, 2, 1}) {
	case 0:
		c.Max = between(t, 1, 9)
	case 1:
		c.Max = between(t, 10, 20)
	}
	nk := c.Max + between(t, 1, 6)
	for k := 0; k < nk; k++ {
		switch intn(t, 3) {
		case 1:
			c.Stale = append(c.Stale, k)
		case 2:
			c.Live = append(c.Live, k)
		}
	}
	op := func(w []int) CacheOp {
		op := CacheOp{K: intn(t, nk)}
		switch weighted(t, w) {
		case 0:
			op.Op = "set"
		case 1:
			op.Op = "get"
		case 2:
			op.Op = "del"
		case 3:
			op.Op = "count"
		case 4:
			op.Op = "flush"
		case 5:
			op.Op, op.N = "clean", pick(t, []int{0, 10, 30, 50})
		case 6:
			op.Op = "verify"
		case 7:
			op.Op, op.N = "fill", between(t, 1, 5)
		}
		return op
	}
	w := []int{10, 8, 2, 1, 1, 1, 1, 1}
	if chance(t, 40) {
		w = []int{10, 8, 2, 1, 0, 0, 0, 1}
	}
	for g, n := 0, between(t, 2, 5); g < n; g++ {
		var p []CacheOp
		for i, m := 0, between(t, 3, 16); i < m; i++ {
			p = append(p, op(w))
		}
		c.Prog = append(c.Prog, p)
	}
	for i, n := 0, intn(t, 12); i < n; i++ {
		c.After = append(c.After, op([]int{6, 4, 2, 0, 0, 2, 1, 3}))
	}
	return c
}

func runCacheCrowd(r *R, c *CacheConcCase) error {
	if !c.sane() {
		return errDiscard
	}
	ver := verOf(c.Ver)
	tag := func(k int, v interface{}) bool {
		s, ok := v.(string)
		return ok && strings.HasPrefix(s, keyName(k)+"|")
	}
	m := &mcache{max: c.Max, valid: c.Mode == "valid", c: &CacheCase{Ver: c.Ver, Max: c.Max, Valid: c.Mode == "valid"}, source: map[int]time.Time{}, feats: map[string]bool{}}
	err := inBubble(func() error {
		ca := c.prepare(ver, func(k int) interface{} { return keyName(k) + "|" })
		err := parallel(len(c.Prog), func(g int) error {
			for i, op := range c.Prog[g] {
				switch op.Op {
				case "set", "fill":
					for j := 0; j <= op.N; j++ {
						ca.Set(keyName(op.K+j), fmt.Sprintf("%s|%d|%d|%d", keyName(op.K+j), g, i, j))
					}
				case "get":
					v, flag := ca.Get(keyName(op.K))
					if v != nil && (flag || !tag(op.K, v)) {
						return failf("Get(%q) = %v, %v, never set for that key", keyName(op.K), v, flag)
					}
				case "del":
					ca.Del(keyName(op.K))
				case "count":
					if n := ca.Count(); n < 0 || c.Max > 0 && n > c.Max {
						return failf("Count() = %d with a maximum of %d", n, c.Max)
					}
				case "flush":
					ca.Flush()
				case "clean":
					if n := ca.Clean(op.N); n < 0 {
						return failf("Clean(%d) = %d", op.N, n)
					}
				case "verify":
					if n := ca.Verify(); n < 0 {
						return failf("Verify() = %d", n)
					}
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
		// read everything: from then on the order of use is known
		maxKey := 0
		for _, p := range append([][]CacheOp{c.After}, c.Prog...) {
			for _, op := range p {
				if op.K+op.N > maxKey {
					maxKey = op.K + op.N
				}
			}
		}
		for _, k := range append(append([]int{}, c.Stale...), c.Live...) {
			if k > maxKey {
				maxKey = k
			}
		}
		n := ca.Count()
		if c.Max > 0 && n > c.Max {
			return failf("the cache has %d entries afterwards, more than its maximum %d", n, c.Max)
		}
		flags := 0
		for k := 0; k <= maxKey; k++ {
			v, flag := ca.Get(keyName(k))
			switch {
			case v != nil:
				if flag || !tag(k, v) {
					return failf("afterwards Get(%q) = %v, %v, never set for that key", keyName(k), v, flag)
				}
				m.l = append(m.l, &centry{key: k, val: v, ctime: time.Now()})
			case flag:
				flags++
			}
		}
		if n != len(m.l)+flags {
			return failf("afterwards Count() = %d but %d entries were found (and %d not valid)", n, len(m.l), flags)
		}
		m.real = ca
		if c.Mode == "valid" {
			ca.SetValidator(m.validator)
		}
		for i := range c.After {
			op := c.After[i]
			if op.Op == "flush" || op.Op == "count" {
				continue
			}
			err := m.step(i, &op)
			if err == nil {
				err = m.argErr
			}
			if err == nil {
				err = m.count()
			}
			if err != nil {
				return failf("afterwards, step %d (%s): %v", i, op.Op, err)
			}
		}
		for k := 0; k <= maxKey; k++ {
			if err := m.get(k); err != nil {
				return failf("afterwards, at the end: %v", err)
			}
		}
		return m.clean(100)
	})
	if err != nil {
		return failKind(err, "%s, %s: %v", c.Ver, c.Mode, err)
	}
	r.Label("%s %s", c.Ver, c.Mode)
	for k := range m.feats {
		r.Label("afterwards %s", k)
	}
	if len(c.Prog) > 1 && len(c.After) > 0 {
		r.NonTrivial()
	}
	return nil
}

// shrinkProg gives the programs with a goroutine or a call less.
func shrinkProg[T any](prog [][]T) (out [][][]T) {
	for i := range prog {
		out = append(out, append(append([][]T{}, prog[:i]...), prog[i+1:]...))
	}
	for i, p := range prog {
		for j := range p {
			q := append([][]T{}, prog...)
			q[i] = append(append([]T{}, p[:j]...), p[j+1:]...)
			out = append(out, q)
		}
	}
	return out
}

func shrinkCacheConc(c *CacheConcCase) (out []*CacheConcCase) {
	if len(c.After) > 0 {
		d := *c
		d.After = c.After[:len(c.After)-1]
		out = append(out, &d)
	}
	for _, p := range shrinkProg(c.Prog) {
		d := *c
		d.Prog = p
		out = append(out, &d)
	}
	for i := range c.Stale {
		d := *c
		d.Stale = append(append([]int{}, c.Stale[:i]...), c.Stale[i+1:]...)
		out = append(out, &d)
	}
	for i := range c.Live {
		d := *c
		d.Live = append(append([]int{}, c.Live[:i]...), c.Live[i+1:]...)
		out = append(out, &d)
	}
	return out
}

// --- C19 ------------------------------------------------------------------------------

// TSOp is a call on a thread safe object.
type TSOp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
}

// TSCase is a thread safe data set or collection used by several goroutines.
type TSCase struct {
	Kind string   `json:"kind"` // t, z: data sets; c: collection
	Init int      `json:"init"`
	Prog [][]TSOp `json:"prog"`
}

var tsDSOps = []string{"Set", "Set", "Set", "Del", "Get", "Get", "GetInt", "GetString", "GetBool", "GetFloat", "GetTime", "GetDataset", "GetCollection",
	"GetStringCollection", "GetBoolCollection", "GetIntCollection", "GetFloatCollection", "GetTimeCollection", "Clone", "Clone", "String", "GoString"}
var tsCollOps = []string{"Push", "Push", "Unshift", "Unshift", "Pop", "Pop", "Shift", "Shift", "Count", "Get", "GetData", "GetData", "GetDataString", "GetDataInt",
	"GetDataBool", "GetDataFloat", "GetDataTime", "GetCollection", "Clone", "String", "GoString"}

func genTS(t *rapid.T) *TSCase {
	c := &TSCase{Kind: pick(t, []string{"t", "z", "c", "c"}), Init: intn(t, 4)}
	ops := tsDSOps
	if c.Kind == "c" {
		ops = tsCollOps
	}
	for g, n := 0, between(t, 2, 4); g < n; g++ {
		var p []TSOp
		for i, m := 0, between(t, 1, 5); i < m; i++ {
			p = append(p, TSOp{pick(t, ops), intn(t, 3)})
		}
		c.Prog = append(c.Prog, p)
	}
	return c
}

type tsIn struct {
	op  string
	key int
	val int
}

func (c tsIn) String() string { return fmt.Sprintf("%s %d %d", c.op, c.key, c.val) }

var tsKeyNames = []string{"a", "b", "n>x"}

// tsDSModel: the state holds the values of the keys a, b, n>x (0: not there).
func tsDSModel() porcupine.Model {
	text := func(s [3]int, format string) string {
		m := &MDS{M: map[string]interface{}{}}
		n := &MDS{M: map[string]interface{}{}}
		m.M["n"] = n
		if s[0] != 0 {
			m.M["a"] = s[0]
		}
		if s[1] != 0 {
			m.M["b"] = s[1]
		}
		if s[2] != 0 {
			n.M["x"] = s[2]
		}
		return fmt.Sprintf(format, m)
	}
	return porcupine.Model{
		Init: func() interface{} { return [3]int{} },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s := state.([3]int)
			in := input.(tsIn)
			switch in.op {
			case "Set":
				s[in.key] = in.val
				return true, s
			case "Del":
				s[in.key] = 0
				return true, s
			case "Clone":
				return output.([3]int) == s, s
			case "String":
				return output.(string) == text(s, "%v"), s
			case "GoString":
				return output.(string) == text(s, "%#v"), s
			}
			return output.(string) == tsRead(in.op, s[in.key]), s
		},
		DescribeOperation: func(in, out interface{}) string { return fmt.Sprint(in, out) },
	}
}

// tsRead is what a typed read gives for an int value (0: not there).
func tsRead(op string, v int) string {
	switch {
	case v == 0:
		return "missing"
	case op == "Get", op == "GetInt", op == "GetString", op == "GetFloat":
		return fmt.Sprint(v)
	case op == "GetBool":
		return "true"
	}
	return "missing"
}

func runTS(r *R, c *TSCase) error {
	for _, p := range c.Prog {
		for _, op := range p {
			if op.K < 0 || op.K > 2 {
				return errDiscard
			}
		}
	}
	var err error
	switch c.Kind {
	case "t", "z":
		err = runTSDS(c)
	case "c":
		err = runTSColl(c)
	default:
		return errDiscard
	}
	if err != nil {
		return failKind(err, "%s: %v", c.Kind, err)
	}
	r.Label("%s", c.Kind)
	for _, p := range c.Prog {
		for _, op := range p {
			r.Label("%s", op.Op)
		}
	}
	if len(c.Prog) > 1 {
		r.NonTrivial()
	}
	return nil
}

func runTSDS(c *TSCase) error {
	ver := V2{}
	d := ver.NewDS(c.Kind)
	nested := ver.NewDS(c.Kind)
	d.Set("n", nested)
	h := newHistory(len(c.Prog))
	known := map[string]bool{}
	for _, n := range dsReads {
		known[n] = true
	}
	err := parallel(len(c.Prog), func(g int) error {
		for i, op := range c.Prog[g] {
			v := 10 + g*10 + i
			call := h.call()
			in := tsIn{op.Op, op.K, v}
			switch {
			case op.Op == "Set" && op.K == 2:
				nested.Set("x", v)
				h.ret(g, call, in, nil)
			case op.Op == "Set":
				d.Set(tsKeyNames[op.K], v)
				h.ret(g, call, in, nil)
			case op.Op == "Del" && op.K == 2:
				nested.Del("x")
				h.ret(g, call, in, nil)
			case op.Op == "Del":
				d.Del(tsKeyNames[op.K])
				h.ret(g, call, in, nil)
			case op.Op == "Clone":
				x := d.Clone()
				var out [3]int
				h.ret(g, call, in, nil)
				for k, name := range tsKeyNames {
					out[k], _ = x.GetInt(name)
				}
				h.ops[g][len(h.ops[g])-1].Output = out
			case op.Op == "String":
				h.ret(g, call, in, d.String())
			case op.Op == "GoString":
				h.ret(g, call, in, d.GoString())
			case known[op.Op]:
				x, ok := dsRead(d, op.Op, tsKeyNames[op.K])
				out := "missing"
				if ok {
					out = fmt.Sprint(x)
				}
				h.ret(g, call, in, out)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	return h.check(tsDSModel())
}

// tsCollModel: the state is the list of the numbers of the elements.
func tsCollModel(init string) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s := state.(string)
			in := input.(tsIn)
			out := fmt.Sprint(output)
			switch in.op {
			case "Push":
				return true, s + string(rune(in.val))
			case "Unshift":
				return true, string(rune(in.val)) + s
			case "Pop":
				if s == "" {
					return out == "empty", s
				}
				return out == fmt.Sprint(int(s[len(s)-1])), s[:len(s)-1]
			case "Shift":
				if s == "" {
					return out == "empty", s
				}
				return out == fmt.Sprint(int(s[0])), s[1:]
			case "Count":
				return out == fmt.Sprint(len(s)), s
			case "Get":
				if in.key >= len(s) {
					return out == "missing", s
				}
				return out == fmt.Sprint(int(s[in.key])), s
			case "Clone":
				return output.(string) == s, s
			case "String", "GoString":
				text := "XDatasetCollectionTS["
				for i := range s {
					text += fmt.Sprintf("%d:%v ", i, tsElem(int(s[i])))
				}
				return out == text+"]", s
			}
			// lookups
			for i := len(s) - 1; i >= 0; i-- {
				if v, ok := (*tsElem(int(s[i])))[tsCollKeys[in.key]]; ok {
					return out == tsFind(in.op, v), s
				}
			}
			return out == "missing", s
		},
	}
}

var tsCollKeys = []string{"id", "odd", "three"}

// tsElem is the data set number n.
func tsElem(n int) *x2.XDataset {
	d := x2.XDataset{"id": n}
	if n%2 == 1 {
		d["odd"] = n
	}
	if n%3 == 0 {
		d["three"] = fmt.Sprint("three ", n)
	}
	return &d
}

func tsFind(op string, v interface{}) string {
	_, isInt := v.(int)
	if op == "GetData" || op == "GetDataString" || op == "GetDataInt" && isInt {
		return fmt.Sprint(v)
	}
	return "missing"
}

func runTSColl(c *TSCase) error {
	ver := V2{}
	coll := ver.NewColl("t")
	init := ""
	for i := 0; i < c.Init; i++ {
		coll.Push(v2ds(tsElem(i + 1)))
		init += string(rune(i + 1))
	}
	h := newHistory(len(c.Prog))
	known := map[string]bool{}
	for _, n := range collReads {
		known[n] = true
	}
	id := func(d DS) string {
		if d == nil {
			return "empty"
		}
		n, _ := d.GetInt("id")
		return fmt.Sprint(n)
	}
	err := parallel(len(c.Prog), func(g int) error {
		for i, op := range c.Prog[g] {
			n := 10 + g*20 + i
			if n > 126 {
				return errDiscard
			}
			in := tsIn{op.Op, op.K, n}
			e := v2ds(tsElem(n))
			call := h.call()
			switch op.Op {
			case "Push":
				coll.Push(e)
				h.ret(g, call, in, nil)
			case "Unshift":
				coll.Unshift(e)
				h.ret(g, call, in, nil)
			case "Pop", "Shift":
				var d DS
				capturePanic(func() {
					if op.Op == "Pop" {
						d = coll.Pop()
					} else {
						d = coll.Shift()
					}
				})
				h.ret(g, call, in, id(d))
			case "Count":
				h.ret(g, call, in, coll.Count())
			case "Get":
				d, ok := coll.Get(op.K)
				out := "missing"
				if ok {
					out = id(d)
				}
				h.ret(g, call, in, out)
			case "Clone":
				x := coll.Clone()
				h.ret(g, call, in, nil)
				s := ""
				for i := 0; i < x.Count(); i++ {
					d, _ := x.Get(i)
					n, _ := d.GetInt("id")
					s += string(rune(n))
				}
				h.ops[g][len(h.ops[g])-1].Output = s
			case "String":
				h.ret(g, call, in, coll.String())
			case "GoString":
				h.ret(g, call, in, coll.GoString())
			default:
				if known[op.Op] {
					v, ok := collRead(coll, op.Op, tsCollKeys[op.K])
					out := "missing"
					if ok {
						out = fmt.Sprint(v)
					}
					h.ret(g, call, in, out)
				}
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	return h.check(tsCollModel(init))
}

func init() {
	p := Add(Part{Prop: "C25", Name: "linear", Race: true, Stress: true, Reps: 4, Quick: 8000, Rule: "two or more goroutines work on a cache with entries in it"},
		genCacheConc, runCacheConc)
	WithShrink(p, shrinkCacheConc)
	p = Add(Part{Prop: "C25", Name: "crowd", Race: true, Stress: true, Reps: 3, Quick: 4000, Rule: "two or more goroutines, then calls checked one by one"},
		genCacheCrowd, runCacheCrowd)
	WithShrink(p, shrinkCacheConc)
	p = Add(Part{Prop: "C19", Name: "linear", Race: true, Stress: true, Reps: 4, Quick: 12000, Rule: "two or more goroutines"},
		genTS, runTS)
	WithShrink(p, func(c *TSCase) (out []*TSCase) {
		for _, p := range shrinkProg(c.Prog) {
			d := *c
			d.Prog = p
			out = append(out, &d)
		}
		return out
	})
}
