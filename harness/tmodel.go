package harness

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// Reference implementation of the template language, written from the documentation
// (package comment and README) and deliberately simple: a hand written scanner and a
// recursive evaluator over the data model.

type partKind int

const (
	pText partKind = iota
	pComment
	pLang
	pRef
	pLoop
	pCond
	pDump
	pField
	pOpen
	pClose
)

type mpart struct {
	kind partKind
	data string
}

// MTmpl is the model of a template.
type MTmpl struct {
	parts  []mpart
	subs   map[string]*MTmpl
	father *MTmpl
	shared bool // registered under several names
	real   Tmpl
}

func inSet(c byte, extra string) bool {
	return c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || strings.IndexByte(extra, c) >= 0
}

const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// lineBreak gives the length of the line break at the start of s that belongs to the
// tag before it.
func lineBreak(s string) int {
	switch {
	case strings.HasPrefix(s, "\n\r"):
		panic(vagueness{"LF CR after a tag"})
	case strings.HasPrefix(s, "\r\n"):
		return 2
	case strings.HasPrefix(s, "\n"), strings.HasPrefix(s, "\r"):
		return 1
	}
	return 0
}

// scanTag recognises a tag at the start of s.
func scanTag(s string, v2 bool) (p mpart, n int) {
	if len(s) < 5 {
		if !strings.HasPrefix(s, "[[]]") {
			return p, 0
		}
	}
	if strings.HasPrefix(s, "%--") {
		j := strings.Index(s[3:], "--%")
		if j < 0 {
			return p, 0
		}
		n = 3 + j + 3
		return mpart{pComment, s[3 : 3+j]}, n + lineBreak(s[n:])
	}
	if strings.HasPrefix(s, "[[") {
		j := 2
		for j < len(s) && inSet(s[j], "|.-_") {
			j++
		}
		if !strings.HasPrefix(s[j:], "]]") {
			return p, 0
		}
		n = j + 2
		n += lineBreak(s[n:])
		if j == 2 {
			return mpart{pClose, ""}, n
		}
		return mpart{pOpen, s[2:j]}, n
	}
	var kind partKind
	var end string
	set := upper + "-_=>:|."
	switch s[:2] {
	case "##":
		kind, end, set = pLang, "##", upper+"-_."
	case "&&":
		kind, end = pRef, "&&"
	case "@@":
		kind, end = pLoop, "@@"
	case "??":
		kind, end = pCond, "??"
	case "!!":
		kind, end = pDump, "!!"
	case "{{":
		kind, end = pField, "}}"
	default:
		return p, 0
	}
	if v2 {
		j := 2
		for j < len(s) && inSet(s[j], set) {
			j++
		}
		if j == 2 || !strings.HasPrefix(s[j:], end) {
			return p, 0
		}
		return mpart{kind, s[2:j]}, j + 2
	}
	j := strings.Index(s[3:], end)
	if j < 0 {
		return p, 0
	}
	return mpart{kind, s[2 : 3+j]}, 3 + j + 2
}

// scan splits a source into parts.
func scan(src string, v2 bool) []mpart {
	var out []mpart
	text := 0
	for i := 0; i < len(src); {
		p, n := scanTag(src[i:], v2)
		if n == 0 {
			i++
			continue
		}
		if text < i {
			out = append(out, mpart{pText, src[text:i]})
		}
		out = append(out, p)
		i += n
		text = i
	}
	if text < len(src) {
		out = append(out, mpart{pText, src[text:]})
	}
	return out
}

var errNesting = errors.New("nesting")

// parse compiles a source into t, adding to its sub-templates.
func (t *MTmpl) parse(src string, v2 bool) error {
	stack := []*MTmpl{{}}
	names := []string{""}
	for _, p := range scan(src, v2) {
		top := stack[len(stack)-1]
		switch p.kind {
		case pOpen:
			stack = append(stack, &MTmpl{})
			names = append(names, p.data)
		case pClose:
			if len(stack) == 1 {
				return errNesting
			}
			stack = stack[:len(stack)-1]
			up := stack[len(stack)-1]
			ids := strings.Split(names[len(stack)], "|")
			top.shared = len(ids) > 1
			for _, id := range ids {
				if id != "" {
					up.add(id, top)
				} else if len(ids) == 1 {
					up.add(id, top)
				}
			}
			names = names[:len(stack)]
		default:
			top.parts = append(top.parts, p)
		}
	}
	if len(stack) != 1 {
		return errNesting
	}
	t.parts = stack[0].parts
	for n, s := range stack[0].subs {
		t.add(n, s)
	}
	return nil
}

func (t *MTmpl) add(name string, s *MTmpl) {
	if t.subs == nil {
		t.subs = map[string]*MTmpl{}
	}
	s.father = t
	t.subs[name] = s
}

func (t *MTmpl) clone() *MTmpl {
	c := &MTmpl{parts: append([]mpart{}, t.parts...)}
	done := map[*MTmpl]*MTmpl{}
	for n, s := range t.subs {
		if done[s] == nil {
			done[s] = s.clone()
			done[s].shared = s.shared
		}
		c.add(n, done[s])
	}
	return c
}

// find resolves a template name used in t.
func (t *MTmpl) find(name string, v2 bool) *MTmpl {
	for x := t; x != nil; x = x.father {
		if s := x.subs[name]; s != nil {
			return s
		}
		if !v2 {
			break
		}
	}
	return nil
}

// Eval evaluates templates on the model.
type Eval struct {
	v2    bool
	lang  *MLang
	scope []*MDS
	nodat bool
	dump  string
	out   strings.Builder
	depth int
	steps int
	loose bool // go on where the documentation is silent, to measure the work
	stats map[string]int
}

func (e *Eval) hit(s string) { e.stats[s]++ }

func (e *Eval) get(path string) (interface{}, bool) {
	for i := len(e.scope) - 1; i >= 0; i-- {
		v, ok := e.look(e.scope[i], path)
		if ok {
			if i == len(e.scope)-1 {
				if len(e.scope) > 1 {
					e.hit("found-inner")
				}
			} else {
				e.hit("found-outer")
			}
			return v, true
		}
	}
	e.hit("found-none")
	return nil, false
}

func (e *Eval) look(d *MDS, path string) (v interface{}, ok bool) {
	if e.loose {
		defer func() {
			if x := recover(); x != nil {
				v, ok = nil, false
			}
		}()
	}
	return d.lookup(path)
}

func (e *Eval) push(d *MDS) { e.scope = append(e.scope, d) }
func (e *Eval) pop()        { e.scope = e.scope[:len(e.scope)-1] }

func printed(v interface{}) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

func (e *Eval) run(t *MTmpl) {
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > limits.depth {
		panic(vagueness{"too deep"})
	}
	for _, p := range t.parts {
		e.steps++
		if e.steps > limits.steps || e.out.Len() > limits.out {
			panic(vagueness{"too long"})
		}
		switch p.kind {
		case pText:
			e.out.WriteString(p.data)
		case pComment:
			e.hit("comment")
		case pLang:
			if e.lang != nil {
				s, ok := e.lang.M[p.data]
				if ok {
					e.hit("lang-hit")
					if e.depth > 1 {
						e.hit("lang-nested")
					}
				} else {
					e.hit("lang-miss")
				}
				e.out.WriteString(s)
			}
		case pDump:
			if (p.data == "dump" || p.data == "list") && !e.nodat {
				e.hit("dump")
				e.out.WriteString(e.dump)
			}
		case pField:
			e.hit("field")
			if strings.Contains(p.data, ">") {
				e.hit("path")
			}
			v, _ := e.get(p.data)
			e.out.WriteString(printed(v))
		case pRef:
			e.ref(t, strings.Split(p.data, ":"))
		case pLoop:
			if e.nodat && !e.loose {
				panic(vagueness{"loop without data"})
			}
			ids := strings.Split(p.data, ":")
			e.loop(t, ids)
		case pCond:
			e.cond(t, strings.Split(p.data, ":"))
		}
	}
}

func (e *Eval) ref(t *MTmpl, ids []string) {
	switch {
	case len(ids) == 1:
		if s := t.find(ids[0], e.v2); s != nil {
			e.hit("ref")
			if t.subs[ids[0]] == nil {
				e.hit("find-outer")
			}
			e.run(s)
		} else {
			e.hit("ref-missing")
		}
	case len(ids) == 2:
		s := t.find(ids[0], e.v2)
		if s == nil {
			e.hit("ref-missing")
			return
		}
		v, _ := e.get(ids[1])
		if d, ok := v.(*MDS); ok {
			e.hit("ref-level")
			e.push(d)
			e.run(s)
			e.pop()
		} else {
			e.hit("ref-nolevel")
			e.run(s)
		}
	case len(ids) == 3 && ids[0] == "":
		v, _ := e.get(ids[1])
		s := t.find(ids[2]+printed(v), e.v2)
		if s != nil && printed(v) != "" {
			e.hit("ref-indirect")
		}
		if s == nil {
			s = t.find(ids[2], e.v2)
			if s != nil {
				e.hit("ref-indirect-default")
			}
		}
		if s != nil {
			e.run(s)
		}
	default:
		if e.loose {
			for _, id := range ids {
				if s := t.find(id, e.v2); s != nil {
					e.run(s)
				}
			}
			return
		}
		panic(vagueness{"reference form"})
	}
}

func (e *Eval) forms(ids []string) (data, tmpl string) {
	switch {
	case len(ids) == 1:
		return ids[0], ids[0]
	case len(ids) == 2, e.loose:
		return ids[0], ids[1]
	}
	panic(vagueness{"tag form"})
}

func (e *Eval) loop(t *MTmpl, ids []string) {
	data, name := e.forms(ids)
	base := t.find(name, e.v2)
	if base == nil {
		e.hit("loop-notmpl")
		return
	}
	v, _ := e.get(data)
	c, _ := v.(*MColl)
	if c == nil || len(c.L) == 0 {
		if s := t.find(name+".none", e.v2); s != nil {
			e.hit("loop-none")
			e.run(s)
			return
		}
		if e.loose {
			e.run(base)
			return
		}
		panic(vagueness{"empty loop without .none"})
	}
	e.hit("loop")
	if len(c.L) > 1 {
		e.hit("loop-many")
	}
	for i, rec := range c.L {
		var s *MTmpl
		pick := func(suffix string, when bool) {
			if s == nil && when {
				if s = t.find(name+suffix, e.v2); s != nil {
					e.hit("loop" + strings.TrimRight(suffix, "0123456789"))
				}
			}
		}
		pick(".key."+strconv.Itoa(i), true)
		pick(".first", i == 0)
		pick(".last", i == len(c.L)-1)
		pick(".even", i%2 == 0)
		if s == nil {
			s = base
		}
		e.push(rec)
		if e.v2 {
			e.push(&MDS{M: map[string]interface{}{".counter": i + 1}})
		}
		e.run(s)
		if e.v2 {
			e.pop()
		}
		e.pop()
	}
}

func (e *Eval) cond(t *MTmpl, ids []string) {
	data, name := e.forms(ids)
	v, _ := e.get(data)
	str := printed(v)
	d, isDS := v.(*MDS)
	if isDS {
		str = "array"
	}
	if str == "" {
		if s := t.find(name+".none", e.v2); s != nil {
			e.hit("cond-none")
			e.run(s)
		} else {
			e.hit("cond-nothing")
			if t.find(name, e.v2) != nil {
				e.hit("cond-suppressed")
			}
		}
		return
	}
	s := t.find(name, e.v2)
	if s == nil {
		e.hit("cond-notmpl")
		return
	}
	if x := t.find(name+"."+str, e.v2); x != nil {
		e.hit("cond-value")
		s = x
	} else {
		e.hit("cond-met")
	}
	if isDS {
		e.hit("cond-ds")
		e.push(d)
		e.run(s)
		e.pop()
	} else {
		e.run(s)
	}
}

// render evaluates t on data (nil: no data). ok is false if the documentation does not
// define the result (or it is too long).
func (t *MTmpl) render(v2 bool, data *MDS, dump string) (out string, stats map[string]int, ok bool, why string) {
	e := &Eval{v2: v2, dump: dump, stats: map[string]int{}}
	if data != nil {
		e.push(data)
		if l, isl := data.M["#"].(*MLang); isl {
			e.lang = l
		}
	} else {
		e.nodat = true
	}
	defer func() {
		if x := recover(); x != nil {
			vg, isv := x.(vagueness)
			if !isv {
				panic(x)
			}
			out, stats, ok, why = "", nil, false, vg.what
		}
	}()
	e.run(t)
	return e.out.String(), e.stats, true, ""
}

// tooLong tells whether rendering takes more than a few thousand steps.
func (t *MTmpl) tooLong(v2 bool, data *MDS) (long bool) {
	e := &Eval{v2: v2, loose: true, stats: map[string]int{}}
	if data != nil {
		e.push(data)
	} else {
		e.nodat = true
	}
	defer func() {
		if x := recover(); x != nil {
			if _, isv := x.(vagueness); !isv {
				panic(x)
			}
			long = true
		}
	}()
	e.run(t)
	return false
}

// parseModel compiles a source; vague is true when the result is not defined.
func parseModel(src string, v2 bool) (t *MTmpl, err error, vague bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, isv := x.(vagueness); !isv {
				panic(x)
			}
			t, err, vague = nil, nil, true
		}
	}()
	t = &MTmpl{}
	err = t.parse(src, v2)
	return t, err, false
}
