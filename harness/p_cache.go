package harness

import (
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// CacheOp is a call on a cache.
type CacheOp struct {
	Op string `json:"op"`
	K  int    `json:"k,omitempty"`
	N  int    `json:"n,omitempty"` // percentage, duration, length
}

// CacheCase is a history of a cache. Times are in units (mostly 10 ms) of a fake clock, an
// expiration or TTL of n lasts n units and a half, so that no instant is a limit case.
type CacheCase struct {
	Ver    string    `json:"ver"`
	Max    int       `json:"max,omitempty"`
	Expire int       `json:"expire,omitempty"`
	Valid  bool      `json:"valid,omitempty"` // with a validator
	Nils   bool      `json:"nils,omitempty"`  // nil as values
	Log    bool      `json:"log,omitempty"`
	Unit   int       `json:"unit,omitempty"` // index of the unit
	Word   S         `json:"word,omitempty"` // name of key 0
	Ops    []CacheOp `json:"ops"`
}

// units are the lengths of a unit of time of a case.
var units = []time.Duration{10 * time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 20 * 24 * time.Hour, time.Millisecond, time.Microsecond, 333333333}

// unit and cacheWord are those of the running case.
var (
	unit      = units[0]
	cacheWord string
)

// inBubble runs f with a fake clock.
func inBubble(f func() error) (err error) {
	done := make(chan struct{})
	go func() { // synctest ends the goroutine when there was a data race
		defer close(done)
		synctest.Test(theT, func(*testing.T) {
			defer func() {
				if x := recover(); x != nil {
					if ke, ok := x.(*kindErr); ok {
						err = ke
					} else {
						err = &kindErr{"panic", fmt.Sprintf("panic: %v\n%s", x, trimStack(debug.Stack()))}
					}
				}
			}()
			err = f()
		})
	}()
	<-done
	return err
}

// centry is the model of a cache entry.
type centry struct {
	key   int
	val   interface{}
	ctime time.Time
	ttl   time.Duration
}

// mcache is the model: the entries from the least to the most recently used.
type mcache struct {
	c      *CacheCase
	real   Cache
	l      []*centry
	source map[int]time.Time // when the source of a key was last modified
	argErr error
	feats  map[string]bool
	// the settings at the moment
	max, expire int
	valid       bool
}

func (m *mcache) find(k int) int {
	for i, e := range m.l {
		if e.key == k {
			return i
		}
	}
	return -1
}

func (m *mcache) remove(i int) { m.l = append(append([]*centry{}, m.l[:i]...), m.l[i+1:]...) }

func (m *mcache) overAge(e *centry) bool {
	age := time.Since(e.ctime)
	return e.ttl > 0 && age > e.ttl || m.expire > 0 && age > expiry(m.expire)
}

func (m *mcache) refused(e *centry) bool {
	return m.valid && e.ctime.Before(m.source[e.key])
}

func expiry(n int) time.Duration { return time.Duration(n)*unit + unit/2 }

// oddKeys are the first keys, easily taken for one another.
var oddKeys = []string{"", "k", "K", " k", "k ", "kk", "k\x00", "k>0", "é", "e\u0301", "\xff", "0", strings.Repeat("k", 300), strings.Repeat("k", 299) + "l"}

func keyName(k int) string {
	if k == 0 && cacheWord != "" {
		return cacheWord
	}
	if k >= 0 && k < len(oddKeys) {
		return oddKeys[k]
	}
	return fmt.Sprintf("k%d", k)
}

func keyNumber(s string) int {
	if s == cacheWord && s != "" {
		return 0
	}
	for k, o := range oddKeys {
		if s == o {
			return k
		}
	}
	n := -1
	fmt.Sscanf(s, "k%d", &n)
	return n
}

// validator is the validator given to the cache: an entry is good unless its source
// was modified since the entry was set.
func (m *mcache) validator(key string, ctime time.Time) bool {
	i := m.find(keyNumber(key))
	if i < 0 {
		m.argErr = failf("the validator was called for %q, which is not in the cache", key)
		return true
	}
	if !m.l[i].ctime.Equal(ctime) {
		m.argErr = failf("the validator was called for %q with %v, which was set at %v", key, ctime, m.l[i].ctime)
		return true
	}
	return !m.refused(m.l[i])
}

// dropOverAge removes the entries over their age.
func (m *mcache) dropOverAge() (n int) {
	var l []*centry
	for _, e := range m.l {
		if m.overAge(e) {
			n++
		} else {
			l = append(l, e)
		}
	}
	m.l = l
	return n
}

func share(n, p int) (floor, ceil int) { return n * p / 100, (n*p + 99) / 100 }

func (m *mcache) get(k int) error {
	v, flag := m.real.Get(keyName(k))
	i := m.find(k)
	if i < 0 {
		if v != nil || flag {
			return failf("Get(%q) = %v, %v for a key not in the cache", keyName(k), v, flag)
		}
		return nil
	}
	e := m.l[i]
	if m.overAge(e) || m.refused(e) {
		if m.overAge(e) {
			m.feats["get over age"] = true
		} else {
			m.feats["get refused"] = true
		}
		if v != nil || !flag {
			return failf("Get(%q) = %v, %v for an entry over age (%v) or refused (%v)", keyName(k), v, flag, m.overAge(e), m.refused(e))
		}
		m.remove(i)
		return nil
	}
	if !sameObject(v, e.val) || flag {
		return failf("Get(%q) = %v, %v; expected %v, false", keyName(k), v, flag, e.val)
	}
	m.feats["get served"] = true
	m.remove(i)
	m.l = append(m.l, e)
	return nil
}

func (m *mcache) set(k int, val interface{}) error {
	m.real.Set(keyName(k), val)
	i := m.find(k)
	fresh := i < 0
	if i >= 0 {
		m.remove(i)
	}
	m.l = append(m.l, &centry{key: k, val: val, ctime: time.Now()})
	n := m.real.Count()
	if m.max == 0 || len(m.l) < m.max {
		if n != len(m.l) {
			return failf("Set(%q) below the maximum: the cache has %d entries, expected %d", keyName(k), n, len(m.l))
		}
		return nil
	}
	// the cache is full: those over age go, then about 10% of the least recently used
	m.feats["full"] = true
	if m.dropOverAge() > 0 {
		m.feats["full with over age"] = true
	}
	live := len(m.l)
	gone := live - n
	lo, hi := share(live, 10)
	if over := live - m.max; hi < over {
		hi = over
	}
	if !fresh || live < m.max {
		lo = 0
	}
	if n > m.max {
		return failf("Set(%q): the cache has %d entries, more than its maximum %d", keyName(k), n, m.max)
	}
	if n < 1 {
		return failf("Set(%q): the cache is empty", keyName(k))
	}
	if gone < lo || gone > hi {
		return failf("Set(%q) at the maximum: %d of %d entries removed, expected %d to %d", keyName(k), gone, live, lo, hi)
	}
	if gone > 0 {
		m.feats["evicted"] = true
	}
	m.l = m.l[gone:]
	return nil
}

func (m *mcache) clean(p int) error {
	before := len(m.l)
	got := m.real.Clean(p)
	n := m.real.Count()
	expired := m.dropOverAge()
	if expired > 0 {
		m.feats["cleaned over age"] = true
	}
	lo, hi := share(len(m.l), p)
	gone := len(m.l) - n
	if gone < lo || gone > hi {
		return failf("Clean(%d) of %d entries (%d of them over age) leaves %d: %d others removed, expected %d to %d", p, before, expired, n, gone, lo, hi)
	}
	if got != before-n {
		return failf("Clean(%d) = %d but %d of %d entries were removed", p, got, before-n, before)
	}
	if gone > 0 {
		m.feats["cleaned"] = true
	}
	m.l = m.l[gone:]
	return nil
}

func (m *mcache) verify() error {
	before := len(m.l)
	got := m.real.Verify()
	m.dropOverAge()
	var l []*centry
	for _, e := range m.l {
		if !m.refused(e) {
			l = append(l, e)
		} else {
			m.feats["verified refused"] = true
		}
	}
	m.l = l
	if got != before-len(m.l) {
		return failf("Verify() = %d, expected %d of %d", got, before-len(m.l), before)
	}
	return nil
}

func (m *mcache) step(i int, op *CacheOp) error {
	switch op.Op {
	case "set":
		v := cacheValue(op.N, i)
		if op.N == 1 && !m.c.Nils {
			v = fmt.Sprintf("value %d", i)
		}
		if op.N == 2 { // once more
			if j := m.find(op.K); j >= 0 {
				v = m.l[j].val
			}
		}
		return m.set(op.K, v)
	case "fill":
		for j := 0; j < op.N; j++ {
			if err := m.set(op.K+j, i*100000+j); err != nil {
				return err
			}
		}
	case "get":
		return m.get(op.K)
	case "probe":
		for j := 0; j < op.N; j++ {
			if err := m.get(op.K + j); err != nil {
				return err
			}
		}
	case "del":
		m.real.Del(keyName(op.K))
		if i := m.find(op.K); i >= 0 {
			m.remove(i)
		}
	case "flush":
		m.real.Flush()
		m.l = nil
		m.feats["flushed"] = true
	case "clean":
		return m.clean(op.N)
	case "verify":
		return m.verify()
	case "ttl":
		var d time.Duration
		if op.N > 0 {
			d = expiry(op.N)
		}
		m.real.SetTTL(keyName(op.K), d)
		if i := m.find(op.K); i >= 0 && m.c.Ver == "v2" {
			m.l[i].ttl = d
			m.feats["ttl"] = true
		}
	case "max": // the settings are changed
		m.max = op.N
		m.real.SetMax(op.N)
		m.feats["setting changed"] = true
	case "expire":
		m.expire = op.N
		var d time.Duration
		if op.N > 0 {
			d = expiry(op.N)
		}
		m.real.SetExpire(d)
		m.feats["setting changed"] = true
	case "valid":
		m.valid = op.N == 1
		if m.valid {
			m.real.SetValidator(m.validator)
		} else {
			m.real.SetValidator(nil)
		}
		m.feats["setting changed"] = true
	case "sleep":
		time.Sleep(time.Duration(op.N) * unit)
	case "touch": // the source is modified
		if op.N == 0 {
			time.Sleep(unit)
		} else { // at once
			time.Sleep(time.Nanosecond)
		}
		m.source[op.K] = time.Now()
	}
	return nil
}

func (m *mcache) count() error {
	if n := m.real.Count(); n != len(m.l) {
		return failf("Count() = %d, expected %d", n, len(m.l))
	}
	return nil
}

func (m *mcache) sane(c *CacheCase) bool {
	if c.Unit < 0 || c.Unit >= len(units) || c.Word != "" && keyNumber(string(c.Word)) >= 0 {
		return false
	}
	if c.Max < 0 || c.Expire < 0 || c.Ver != "v1" && c.Ver != "v2" {
		return false
	}
	for _, op := range c.Ops {
		if op.N < 0 || op.N > 10000 || op.K < 0 || op.Op == "clean" && op.N > 100 {
			return false
		}
	}
	return true
}

// runCacheModel runs the history; lru tells whether cleaning must follow the order of use.
func runCacheModel(r *R, c *CacheCase, lru bool) (m *mcache, err error) {
	m = &mcache{c: c, max: c.Max, expire: c.Expire, valid: c.Valid, source: map[int]time.Time{}, feats: map[string]bool{}}
	if !m.sane(c) {
		return m, errDiscard
	}
	unit, cacheWord = units[c.Unit], string(c.Word)
	defer func() { unit, cacheWord = units[0], "" }()
	ver := verOf(c.Ver)
	ver.SetLog(c.Log)
	defer ver.SetLog(false)
	err = inBubble(func() error {
		var exp time.Duration
		if c.Expire > 0 {
			exp = expiry(c.Expire)
		}
		m.real = ver.NewCache(c.Max, exp)
		if c.Valid {
			m.real.SetValidator(m.validator)
		}
		maxKey := 0
		for i := range c.Ops {
			op := &c.Ops[i]
			if op.K+op.N > maxKey {
				maxKey = op.K + op.N
			}
			var err error
			if op.Op == "clean" && !lru {
				err = m.cleanAny(op.N)
			} else {
				err = m.step(i, op)
			}
			if err == nil {
				err = m.argErr
			}
			if err == nil {
				err = m.count()
			}
			if err != nil {
				return failf("%s, step %d (%s): %v", c.Ver, i, op.Op, err)
			}
		}
		// finally everything is read
		for k := 0; k <= maxKey+1; k++ {
			err := m.get(k)
			if err == nil {
				err = m.argErr
			}
			if err != nil {
				return failf("%s, at the end: %v", c.Ver, err)
			}
		}
		if err := m.count(); err != nil {
			return failf("%s, after reading everything: %v", c.Ver, err)
		}
		return nil
	})
	r.Label("%s", c.Ver)
	for k := range m.feats {
		r.Label("%s", k)
	}
	return m, err
}

// cleanAny checks a cleaning without regard to which entries go.
func (m *mcache) cleanAny(p int) error {
	before := len(m.l)
	got := m.real.Clean(p)
	n := m.real.Count()
	lo, hi := share(before, p)
	if before-n < lo || before-n > hi {
		return failf("Clean(%d) of %d entries leaves %d", p, before, n)
	}
	if got != before-n {
		return failf("Clean(%d) = %d but %d of %d entries were removed", p, got, before-n, before)
	}
	if got > 0 {
		m.feats["cleaned"] = true
	}
	// those left
	var l []*centry
	for _, e := range m.l {
		v, flag := m.real.Get(keyName(e.key))
		if flag || v != nil && !sameObject(v, e.val) {
			return failf("Get(%q) = %v, %v after Clean(%d); expected %v or nothing", keyName(e.key), v, flag, p, e.val)
		}
		if v != nil || n == before {
			l = append(l, e)
		}
	}
	if len(l) != n {
		return failf("Clean(%d) left %d entries but %d can be read", p, n, len(l))
	}
	m.l = l
	return nil
}

// cacheValue is a value to be stored in step i: a string, nil, or something less usual.
func cacheValue(n, i int) interface{} {
	switch n {
	case 1:
		return nil
	case 3:
		return &i
	case 4:
		return []int{i}
	case 5:
		return map[string]int{"a": i}
	case 6:
		return func() int { return i }
	case 7:
		return i%2 == 0
	case 8:
		return 0
	case 9:
		return ""
	case 10:
		return math.NaN()
	case 11:
		return fmt.Errorf("error %d", i)
	case 12:
		return struct{ a, b interface{} }{i, []int{i}}
	case 13:
		return V2{}.NewDS("t").Raw()
	case 14:
		return V1{}.NewDS("").Raw()
	case 15:
		return (*int)(nil)
	case 16:
		return []string(nil)
	case 17:
		return time.Unix(int64(i), 0)
	case 18:
		x, _ := V2{}.TmplFromString("{{a}}")
		return x.Raw()
	}
	return fmt.Sprintf("value %d", i)
}

// genSetN draws the sort of value of a set: mostly a string, or the value there is (2).
func genSetN(t *rapid.T) int {
	if chance(t, 20) {
		return between(t, 3, 18)
	}
	return pick(t, []int{0, 0, 1, 2})
}

// sameObject tells whether a is b: the same object if it has an identity.
func sameObject(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Slice:
		return x.Pointer() == y.Pointer()
	case reflect.Struct:
		return reflect.DeepEqual(a, b)
	case reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	}
	return a == b
}

// genCacheScale draws the unit of time and the name of the first key.
func genCacheScale(t *rapid.T, c *CacheCase) {
	if chance(t, 20) {
		c.Unit = intn(t, len(units))
	}
	if w := orWord(t, 10, "", nil); w != "" && keyNumber(w) < 0 {
		c.Word = S(w)
	}
}

// --- C22 ------------------------------------------------------------------------------

func genCacheMap(t *rapid.T) *CacheCase {
	c := &CacheCase{Ver: genVer(t), Log: chance(t, 10), Nils: chance(t, 20)}
	genCacheScale(t, c)
	keys, from := between(t, 1, 8), 0
	if chance(t, 40) {
		from = intn(t, len(oddKeys))
	}
	for i, n := 0, between(t, 2, 25); i < n; i++ {
		op := CacheOp{K: from + intn(t, keys)}
		switch weighted(t, []int{8, 8, 3, 1, 2, 1, 1, 1}) {
		case 0:
			op.Op, op.N = "set", genSetN(t)
		case 1:
			op.Op = "get"
		case 2:
			op.Op = "del"
		case 3:
			op.Op = "flush"
		case 4:
			op.Op = "clean"
			if c.Nils {
				op.N = pick(t, []int{0, 100})
			} else {
				op.N = pick(t, []int{0, 10, 25, 33, 50, 75, 99, 100, 1})
			}
		case 5:
			op.Op = "verify"
		case 6:
			op.Op, op.N = "sleep", between(t, 1, 100)
		case 7:
			op.Op, op.N = "fill", between(t, 2, 30)
			if chance(t, 10) {
				op.N = between(t, 50, 500)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runCacheMap(r *R, c *CacheCase) error {
	if c.Max != 0 || c.Expire != 0 || c.Valid {
		return errDiscard
	}
	if c.Nils {
		for _, op := range c.Ops {
			if op.Op == "clean" && op.N%100 != 0 {
				return errDiscard
			}
		}
	}
	m, err := runCacheModel(r, c, false)
	if err != nil {
		return err
	}
	sets := map[int]int{}
	dels := 0
	for _, op := range c.Ops {
		if op.Op == "set" {
			sets[op.K]++
		}
		if op.Op == "del" || op.Op == "flush" {
			dels++
		}
	}
	if len(sets) > 1 && dels > 0 && m.feats["get served"] {
		r.NonTrivial()
	}
	return nil
}

// --- C23 ------------------------------------------------------------------------------

func genCacheAge(t *rapid.T) *CacheCase {
	c := &CacheCase{Ver: genVer(t), Log: chance(t, 10), Valid: chance(t, 50), Nils: chance(t, 10)}
	genCacheScale(t, c)
	if chance(t, 60) {
		c.Expire = between(t, 1, 10)
	}
	keys, from := between(t, 1, 4), 0
	if chance(t, 30) {
		from = intn(t, len(oddKeys))
	}
	for i, n := 0, between(t, 4, 32); i < n; i++ {
		op := CacheOp{K: from + intn(t, keys)}
		switch weighted(t, []int{10, 10, 1, 0, 3, 4, 8, 4, 6}) {
		case 0:
			op.Op, op.N = "set", genSetN(t)
		case 1:
			op.Op = "get"
		case 2:
			op.Op = "del"
			if chance(t, 25) {
				op.Op = "flush"
			}
		case 4:
			op.Op = "clean"
			if chance(t, 10) {
				op.N = 100
			}
		case 5:
			op.Op = "verify"
		case 6:
			op.Op, op.N = "sleep", between(t, 1, 8)
		case 7:
			op.Op, op.N = "ttl", intn(t, 10)
			if c.Ver == "v1" {
				op.Op = "get"
			}
		case 8:
			op.Op, op.N = "touch", bits(t, 1)
			if !c.Valid {
				op.Op = "get"
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runCacheAge(r *R, c *CacheCase) error {
	if c.Max != 0 {
		return errDiscard
	}
	for _, op := range c.Ops {
		if op.Op == "clean" && op.N%100 != 0 {
			return errDiscard
		}
	}
	m, err := runCacheModel(r, c, true)
	if err != nil {
		return err
	}
	if m.feats["get served"] && (m.feats["get over age"] || m.feats["get refused"] || m.feats["cleaned over age"] || m.feats["verified refused"]) {
		r.NonTrivial()
	}
	return nil
}

// --- C24 ------------------------------------------------------------------------------

func genCacheLRU(t *rapid.T) *CacheCase {
	c := &CacheCase{Ver: genVer(t), Log: chance(t, 5), Nils: chance(t, 10)}
	genCacheScale(t, c)
	switch weighted(t, []int{4, 4, 2, 1}) {
	case 0:
		c.Max = between(t, 1, 9)
	case 1:
		c.Max = between(t, 10, 25)
	case 2:
		c.Max = between(t, 26, 60)
		if chance(t, 20) {
			c.Max = between(t, 80, 400)
		}
	}
	c.Max = orSize(t, 4, c.Max, 400)
	if chance(t, 30) {
		c.Expire = between(t, 2, 20)
	}
	c.Valid = chance(t, 20)
	keys := c.Max + between(t, 1, 8)
	if chance(t, 60) {
		c.Ops = append(c.Ops, CacheOp{Op: "fill", K: intn(t, 3), N: between(t, c.Max/2+1, c.Max+2)})
	}
	for i, n := 0, between(t, 3, 40); i < n; i++ {
		op := CacheOp{K: intn(t, keys)}
		switch weighted(t, []int{10, 8, 3, 1, 2, 2, 4, 3, 3, 4, 1}) {
		case 0:
			op.Op, op.N = "set", genSetN(t)
		case 1:
			op.Op = "get"
		case 2:
			op.Op = "del"
		case 3:
			op.Op = "flush"
		case 4:
			op.Op, op.N = "clean", pick(t, []int{0, 5, 10, 20, 30, 50, 90, 100})
		case 5:
			op.Op = "verify"
		case 6:
			op.Op, op.N = "sleep", between(t, 1, 12)
			if c.Expire == 0 {
				op.Op, op.N = "get", 0
			}
		case 7:
			op.Op, op.N = "ttl", intn(t, 10)
			if c.Ver == "v1" {
				op.Op, op.N = "get", 0
			}
		case 8:
			op.Op, op.N = "touch", bits(t, 1)
			if !c.Valid {
				op.Op, op.N = "set", 0
			}
		case 9:
			op.Op, op.N = "fill", between(t, 1, c.Max/2+3)
		case 10:
			op.Op, op.N = "probe", between(t, 1, c.Max/2+3)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runCacheLRU(r *R, c *CacheCase) error {
	m, err := runCacheModel(r, c, true)
	if err != nil {
		return err
	}
	if m.feats["get served"] && (m.feats["evicted"] || m.feats["cleaned"]) {
		r.NonTrivial()
	}
	return nil
}

// --- C34: settings changed during the life of a cache ------------------------------------

func genCacheSettings(t *rapid.T) *CacheCase {
	c := genCacheLRU(t)
	if len(c.Ops) > 0 && c.Ops[0].Op == "fill" && c.Ops[0].N > 80 {
		c.Ops[0].N = 80
	}
	insert := func(at int, op CacheOp) {
		c.Ops = append(c.Ops, CacheOp{})
		copy(c.Ops[at+1:], c.Ops[at:])
		c.Ops[at] = op
	}
	for k := between(t, 1, 5); k > 0; k-- {
		at := intn(t, len(c.Ops)+1)
		switch weighted(t, []int{5, 3, 3}) {
		case 0:
			insert(at, CacheOp{Op: "max", N: pick(t, []int{0, 1, 2, 3, 5, 9, 10, 11, 15, 20, 30, 50})})
		case 1:
			insert(at, CacheOp{Op: "expire", N: pick(t, []int{0, 1, 2, 4, 8, 16})})
			if chance(t, 60) {
				insert(at+bits(t, 1), CacheOp{Op: "sleep", N: between(t, 1, 12)})
			}
		case 2:
			insert(at, CacheOp{Op: "valid", N: bits(t, 1)})
			for j := intn(t, 4); j > 0; j-- {
				insert(intn(t, len(c.Ops)+1), CacheOp{Op: "touch", K: intn(t, 8), N: bits(t, 1)})
			}
		}
	}
	return c
}

func runCacheSettings(r *R, c *CacheCase) error {
	m, err := runCacheModel(r, c, true)
	if err != nil {
		return err
	}
	if m.feats["setting changed"] && m.feats["get served"] && (m.feats["evicted"] || m.feats["get over age"] || m.feats["get refused"] || m.feats["cleaned over age"] || m.feats["verified refused"]) {
		r.NonTrivial()
	}
	return nil
}

func init() {
	Add(Part{Prop: "C34", Name: "settings", Quick: 320000, Rule: "a setting was changed, an entry served and another one removed because of a setting"},
		genCacheSettings, runCacheSettings)
	Add(Part{Prop: "C22", Name: "map", Quick: 800000, Rule: "two or more keys set, something deleted and a stored value served"},
		genCacheMap, runCacheMap)
	Add(Part{Prop: "C23", Name: "age", Quick: 1400000, Rule: "an entry was served and another one met over its age or refused"},
		genCacheAge, runCacheAge)
	Add(Part{Prop: "C24", Name: "lru", Quick: 800000, Rule: "an entry was served and least recently used ones were removed"},
		genCacheLRU, runCacheLRU)
}
