package harness

import (
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
)

// mtable is the model of a language table.
type mtable struct {
	name, lang string
	e, st      map[string]string
	vague      map[string]bool // ids whose status is not specified
}

func newTable(name, lang string) *mtable {
	return &mtable{name: name, lang: lang, e: map[string]string{}, st: map[string]string{}, vague: map[string]bool{}}
}

func (m *mtable) copyOf() *mtable {
	c := newTable(m.name, m.lang)
	for k, v := range m.e {
		c.e[k] = v
	}
	for k, v := range m.st {
		c.st[k] = v
	}
	for k, v := range m.vague {
		c.vague[k] = v
	}
	return c
}

var langTags = []string{"en", "es", "fr", "es-MX", "zh-Hant-TW", "und", "en-US", "sr-Latn", "de-CH", "pt-BR", "de-u-co-phonebk", "en-x-abc", "ca-valencia", "es-419", "x-abc", "de-t-en"}

var langKeys = []string{"a", "b", "c", "", "é", "a b", "x.y", "A", "<k>", "k&", "\"q\"", "k'", longKey, " a", "a ", "\ta", "a\n", "a.b"}

// compare checks everything readable of a table.
func (m *mtable) compare(ver Ver, l Lang) error {
	if l.GetName() != m.name {
		return failf("the name is %q, expected %q", l.GetName(), m.name)
	}
	if l.GetLanguage() != m.lang {
		return failf("the language is %q, expected %q", l.GetLanguage(), m.lang)
	}
	for _, k := range langKeys {
		if got := l.Get(k); got != m.e[k] {
			return failf("Get(%q) = %q, expected %q", k, clip(got), clip(m.e[k]))
		}
	}
	for k, v := range m.e {
		if got := l.Get(k); got != v {
			return failf("Get(%q) = %q, expected %q", k, clip(got), clip(v))
		}
	}
	if got := l.Entries(); !sameMap(got, m.e) {
		for k := range got {
			if _, ok := m.e[k]; !ok {
				return failf("the table has an entry %q that was never set", clip(k))
			}
		}
		return failf("the entries are %d, expected %d", len(got), len(m.e))
	}
	if ver.IsV2() {
		for _, k := range langKeys {
			if got := l.GetStatus(k); got != m.st[k] && !m.vague[k] {
				return failf("GetStatus(%q) = %q, expected %q", k, got, m.st[k])
			}
		}
		for k, v := range m.st {
			if got := l.GetStatus(k); got != v && !m.vague[k] {
				return failf("GetStatus(%q) = %q, expected %q", k, got, v)
			}
		}
	}
	return nil
}

func sameMap(a, b map[string]string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func clip(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s... (%d bytes)", s[:200], len(s))
	}
	return s
}

// --- C27: flat text -------------------------------------------------------------------

// loadFlat is the model of loading flat text.
func (m *mtable) loadFlat(text string) {
	for _, line := range strings.Split(text, "\n") {
		i := strings.IndexByte(line, '=')
		if i < 0 || line[0] == '#' || line[0] == ';' {
			continue
		}
		if k := strings.TrimSpace(line[:i]); k != "" {
			m.e[k] = strings.TrimSpace(line[i+1:])
		}
	}
}

// FlatCase loads flat texts one after the other.
type FlatCase struct {
	Ver   string `json:"ver"`
	New   bool   `json:"new"` // the first text by the constructor
	Set   []KVs  `json:"set"`
	Texts []S    `json:"texts"`
	Long  int    `json:"long,omitempty"` // length of a long value put in the first text
	At    int    `json:"at,omitempty"`
}

var flatWords = []string{"a", "b", "c", "x.y", "a b", "é", "日本", "=", "#", ";", "\"q\"", "\\n", "%d", "<b>", "1", "[[a]]", "{{a}}", "\t", " ", "\x00", "\xff", "\\", "'", "\u2028", "//", "!", "--", ":", ",", "&amp;", "$a", "${a}", "a=b", "\r", "\f", "\u0085", "\u00a0"}
var flatSpace = []string{"", "", "", " ", "\t", "  ", " ", " \t", " ", "\v"}
var flatEnds = []string{"\n", "\r\n", "\n", "\r\n", "\n\n", "\r\n\r\n"}

func genFlatText(t *rapid.T) string {
	var b strings.Builder
	end := pick(t, flatEnds[:2])
	word := func(max int) string {
		s := ""
		for i, n := 0, intn(t, max+1); i < n; i++ {
			s += orWord(t, 3, pick(t, flatWords), oneLine)
		}
		return s
	}
	n := between(t, 0, 8)
	if chance(t, 2) {
		for i, k := 0, between(t, 20, 200); i < k; i++ {
			b.WriteString(wideKey(i) + "=" + strings.Repeat("v", i) + end)
		}
	}
	if chance(t, 3) {
		b.WriteString(pick(t, []string{"\ufeff", "\ufeff", "\u200b", "\xef\xbb", "\xff\xfe", "\x1b"}))
	}
	for i := 0; i < n; i++ {
		line := ""
		switch weighted(t, []int{8, 2, 1, 1, 1, 1}) {
		case 0:
			line = pick(t, flatSpace) + orWord(t, 3, pick(t, langKeys), oneLine) + pick(t, flatSpace) + "=" + pick(t, flatSpace) + word(4) + pick(t, flatSpace)
		case 1:
			line = word(3) + pick(t, flatSpace) + "=" + word(4)
		case 2:
			line = pick(t, []string{"#", ";", "##", "# ", ";;"}) + pick(t, langKeys) + "=" + word(2)
		case 3:
			line = strings.ReplaceAll(word(4), "=", "")
		case 4:
			line = pick(t, flatSpace)
		case 5:
			line = pick(t, flatSpace) + "=" + word(2)
		}
		if s := strings.TrimSpace(line); s != "" && (s[0] == '#' || s[0] == ';') && line[0] != s[0] {
			line = s // white space before a comment mark is left open
		}
		if chance(t, 3) {
			line += pick(t, []string{"\\", "\\\\", "\"", "'", "&", "+", "_", "|", ","}) // nothing that continues a line
		}
		b.WriteString(line)
		if i == n-1 && chance(t, 40) {
			break
		}
		if chance(t, 20) {
			b.WriteString(pick(t, flatEnds))
		} else {
			b.WriteString(end)
		}
	}
	return b.String()
}

func genFlat(t *rapid.T) *FlatCase {
	c := &FlatCase{Ver: genVer(t), New: chance(t, 50)}
	for i, n := 0, intn(t, 4); i < n; i++ {
		c.Set = append(c.Set, KVs{S(pick(t, langKeys)), S(genString(t))})
	}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		c.Texts = append(c.Texts, S(genFlatText(t)))
	}
	if chance(t, 1) {
		c.Long = pick(t, []int{1000, 4095, 4096, 65530, 65534, 65535, 65536, 65537, 70000, 200000, 1 << 20})
		c.At = intn(t, 3)
	}
	return c
}

// withLong puts a line with a long value into a text.
func withLong(text string, n, at int) string {
	line := "long=" + strings.Repeat("v", n)
	switch at % 3 {
	case 0:
		return line + "\n" + text
	case 1:
		return text + "\n" + line
	}
	return text + "\n" + line + "\r\nlast=1\n"
}

func runFlat(r *R, c *FlatCase) error {
	ver := verOf(c.Ver)
	if c.Long < 0 || c.Long > 1<<22 || c.At < 0 {
		return errDiscard
	}
	l := ver.NewLang("n", "en")
	m := newTable("n", "en")
	pairs := 0
	for i, text := range c.Texts {
		s := string(text)
		if i == 0 && c.Long > 0 {
			s = withLong(s, c.Long, c.At)
		}
		if i == 0 && c.New {
			n, err := ver.LangFromString(s)
			if err != nil || n == nil {
				return failf("%s: NewXLanguageFromString(%q): %v", c.Ver, clip(s), err)
			}
			l, m = n, newTable(n.GetName(), n.GetLanguage())
		} else {
			if i == 0 {
				for _, e := range c.Set {
					l.Set(string(e.K), string(e.V))
					m.e[string(e.K)] = string(e.V)
				}
			}
			if err := l.LoadString(s); err != nil {
				return failf("%s: LoadString(%q): %v", c.Ver, clip(s), err)
			}
		}
		m.loadFlat(s)
		if err := m.compare(ver, l); err != nil {
			return failf("%s: after loading %q: %v", c.Ver, clip(s), err)
		}
		pairs += strings.Count(s, "=")
	}
	r.Label("%s", c.Ver)
	if c.Long > 60000 {
		r.Label("long line")
	}
	if pairs > 2 && len(m.e) > 1 {
		r.NonTrivial()
	}
	return nil
}

// --- C28: XML -------------------------------------------------------------------------

// Piece is a bit of character data and how it is written.
type Piece struct {
	T S   `json:"t"`
	W int `json:"w"` // 0 escaped, 1 CDATA, 2 decimal references, 3 hexadecimal references
}

// XEntry is an entry element.
type XEntry struct {
	ID     S       `json:"id"`
	Status *S      `json:"status,omitempty"`
	Text   []Piece `json:"text"`
	Style  int     `json:"style"`
}

// XDoc is a language document.
type XDoc struct {
	Name    S        `json:"name"`
	Lang    string   `json:"lang"`
	Entries []XEntry `json:"entries"`
	Style   int      `json:"style"`
	Fault   int      `json:"fault,omitempty"` // 0: well-formed
	At      int      `json:"at,omitempty"`
}

// XMLCase loads documents one after the other.
type XMLCase struct {
	Ver  string `json:"ver"`
	Set  []KVs  `json:"set"`
	New  bool   `json:"new"`
	Docs []XDoc `json:"docs"`
}

func escapeText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#xD;", "\"", "&quot;", "\n", "&#10;", "\t", "&#9;").Replace(s)
}

func (p *Piece) write() string {
	s := string(p.T)
	switch p.W {
	case 1:
		if !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
			return "<![CDATA[" + s + "]]>"
		}
	case 2:
		out := ""
		for _, c := range s {
			out += fmt.Sprintf("&#%d;", c)
		}
		return out
	case 3:
		out := ""
		for _, c := range s {
			out += fmt.Sprintf("&#x%X;", c)
		}
		return out
	case 4: // line breaks as they are
		return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#xD;").Replace(s)
	}
	return escapeText(s)
}

func (e *XEntry) text() string {
	s := ""
	for _, p := range e.Text {
		s += string(p.T)
	}
	return s
}

func attr(name, val string, style int) string {
	if style&1 == 1 {
		return " " + name + "='" + strings.ReplaceAll(escapeText(val), "'", "&apos;") + "'"
	}
	return " " + name + "=\"" + escapeText(val) + "\""
}

// otherAttrs are attributes that have no meaning.
var otherAttrs = [16]string{"other", "ID", "Id", "Lang", "LANG", "language", "name", "Status", "state", "value", "entry", "text", "xid", "idx", "id2", "xml:space"}

var outsideFaults = []string{"text", "<", "</language>", "<entry id=\"f\">x</entry>", "<language id=\"f\" lang=\"en\"></language>", "<language>", "&amp;", "<!-- open", "<![CDATA[x]]>", "0", "<e/>", "]]>"}

// write gives the document; a fault damages it.
func (d *XDoc) write() string {
	nl := []string{"\n", "", "\n  ", "\r\n\t", "<!-- c <entry id='zz'>no</entry> -->", "<?pi x?>\n"}
	sep := func(i int) string { return nl[(d.Style>>2+i)%len(nl)] }
	head := ""
	switch d.Style & 3 {
	case 1:
		head = "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n"
	case 2:
		head = "<?xml version='1.0'?><!-- head -->\n"
	case 3:
		switch d.Style >> 3 & 3 {
		case 0:
			head = "\ufeff"
		case 1:
			head = "\ufeff<?xml version=\"1.0\"?>\n"
		case 2:
			head = "<!DOCTYPE language>\n"
		}
	}
	open := "<language" + attr("id", string(d.Name), d.Style) + attr("lang", d.Lang, d.Style>>1) + ">"
	if d.Style&4 != 0 {
		open = "<language" + attr("lang", d.Lang, d.Style) + attr(otherAttrs[d.Style>>7&15], "fr", d.Style>>1) + "\n" + attr("id", string(d.Name), d.Style) + " >"
	}
	var body []string
	for i := range d.Entries {
		e := &d.Entries[i]
		s := "<entry"
		st := ""
		if e.Status != nil {
			st = attr("status", string(*e.Status), e.Style)
		}
		if e.Style&2 != 0 {
			s += st + attr("id", string(e.ID), e.Style>>2)
		} else {
			s += attr("id", string(e.ID), e.Style>>2) + st
		}
		if e.Style&4 != 0 {
			s += attr(otherAttrs[e.Style>>6&15], "<1>", e.Style)
		}
		if len(e.Text) == 0 && e.Style&8 != 0 {
			s += "/>"
		} else {
			s += ">"
			for j := range e.Text {
				s += e.Text[j].write()
				if e.Style&16 != 0 {
					s += "<!-- in the text -->"
				}
			}
			s += "</entry>"
		}
		body = append(body, s)
	}
	end := "</language>"
	if d.Style>>5&3 == 3 {
		end += "\n<!-- end <x> --> <?pi y?>\r\n"
	}
	if d.Fault > 16 { // something outside of the document element
		switch f := outsideFaults[(d.Fault-17)%len(outsideFaults)]; d.At % 3 {
		case 0:
			end += f
		case 1:
			end += "\n<!-- after -->" + f + "\n"
		case 2:
			if strings.HasPrefix(f, "<language") || strings.HasPrefix(f, "<e") || f[0] != '<' {
				head = strings.TrimRight(head, "\n") + f
			} else {
				end += "\n" + f
			}
		}
	} else if d.Fault != 0 {
		// the fault goes before a chosen entry
		f := []string{"", "<entry id=\"f\">x", "<entry id=\"f\">x</entri>", "<entry id=\"f\">a & b</entry>", "<entry id=\"f\">&nope;</entry>", "<entry id=\"f>x</entry>",
			"</entry>", "<entry id=f>x</entry>", "<entry id=\"f\">a < b</entry>", "<", "<entry id=\"f\"><![CDATA[x</entry>", "<!-- open", "<entry id=\"a<b\">x</entry>",
			"<entry id=\"f\">\xff</entry>", "<entry id=\"f\">\x01</entry>", "<entry id=\"f\">&#x1;</entry>"}[d.Fault%16]
		i := d.At % (len(body) + 1)
		switch {
		case f == "": // cut off
			all := open + strings.Join(body, "")
			cut := 0
			if len(all) > 0 {
				cut = d.At % len(all)
			}
			return head + all[:cut]
		case strings.HasPrefix(f, "<!") || strings.Contains(f, "<!["): // never closed
			body, end = append(append([]string{}, body[:i]...), f), ""
		default:
			body = append(append(append([]string{}, body[:i]...), f), body[i:]...)
		}
	}
	s := head + open
	for i, b := range body {
		s += sep(i) + b
	}
	return s + sep(len(body)) + end
}

func (m *mtable) loadXML(d *XDoc, v2 bool) {
	m.name, m.lang = string(d.Name), d.Lang
	for i := range d.Entries {
		e := &d.Entries[i]
		k := string(e.ID)
		m.e[k] = e.text()
		if e.Status != nil {
			m.st[k] = string(*e.Status)
			delete(m.vague, k)
		} else if m.st[k] == "" && !m.vague[k] {
			m.st[k] = ""
		} else {
			m.vague[k] = true // an entry without the attribute for an id having a status
		}
	}
}

var xmlWords = []string{"a", "b", " ", "<", ">", "&", "\"", "'", "]]", "]]>", "é", "日本", "\n", "\t", "\r", "\r\n", "<b>", "&amp;", "<!--", "😀", "=", "x", " ", "\u0085", "", "�"}

func genXMLText(t *rapid.T, max int) string {
	s := ""
	for i, n := 0, intn(t, max+1); i < n; i++ {
		s += orWord(t, 3, pick(t, xmlWords), xmlLegal)
	}
	return s
}

func genDoc(t *rapid.T, faults int) XDoc {
	d := XDoc{Name: S(genXMLText(t, 2)), Lang: pick(t, langTags), Style: bits(t, 11)}
	if chance(t, 2) {
		for i, k := 0, between(t, 10, 100); i < k; i++ {
			d.Entries = append(d.Entries, XEntry{ID: S(wideKey(i)), Style: i & 7, Text: []Piece{{S(strings.Repeat("v", i)), i % 5}}})
		}
	}
	for i, n := 0, between(t, 0, 5); i < n; i++ {
		e := XEntry{ID: S(orWord(t, 3, pick(t, langKeys), xmlLegal)), Style: bits(t, 10)}
		if chance(t, 20) {
			e.ID = S(genXMLText(t, 2))
		}
		if chance(t, 50) {
			s := S(genXMLText(t, 2))
			e.Status = &s
		}
		for j, k := 0, intn(t, 4); j < k; j++ {
			e.Text = append(e.Text, Piece{S(genXMLText(t, 3)), intn(t, 5)})
		}
		d.Entries = append(d.Entries, e)
	}
	if chance(t, faults) {
		d.Fault = between(t, 1, 16)
		if chance(t, 25) {
			d.Fault = between(t, 17, 16+len(outsideFaults))
		}
		d.At = bits(t, 7)
	}
	return d
}

func genXML(t *rapid.T) *XMLCase {
	c := &XMLCase{Ver: genVer(t), New: chance(t, 30)}
	for i, n := 0, intn(t, 4); i < n; i++ {
		c.Set = append(c.Set, KVs{S(pick(t, langKeys)), S(genString(t))})
	}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		c.Docs = append(c.Docs, genDoc(t, 35))
	}
	return c
}

func (c *XMLCase) sane() bool {
	for i := range c.Docs {
		d := &c.Docs[i]
		if d.Fault < 0 || d.At < 0 || d.Style < 0 {
			return false
		}
		ok := false
		for _, l := range langTags {
			ok = ok || l == d.Lang
		}
		if !ok {
			return false
		}
		for j := range d.Entries {
			if d.Entries[j].Style < 0 {
				return false
			}
		}
	}
	return true
}

func runXML(r *R, c *XMLCase) error {
	if !c.sane() {
		return errDiscard
	}
	ver := verOf(c.Ver)
	l := ver.NewLang("start", "en")
	m := newTable("start", "en")
	for i, e := range c.Set {
		k, v := string(e.K), string(e.V)
		l.Set(k, v)
		m.e[k] = v
		if ver.IsV2() && i%2 == 0 {
			l.SetStatus(k, "s"+v)
			m.st[k] = "s" + v
		}
	}
	good, bad := 0, 0
	for i := range c.Docs {
		d := &c.Docs[i]
		doc := d.write()
		if i == 0 && c.New {
			n, err := ver.LangFromXMLString(doc)
			if d.Fault != 0 {
				if err == nil || n != nil {
					return failf("%s: NewXLanguageFromXMLString of a document that is not well-formed: table %v, error %v\n%s", c.Ver, n != nil, err, doc)
				}
				bad++
				continue
			}
			if err != nil || n == nil {
				return failf("%s: NewXLanguageFromXMLString: %v\n%s", c.Ver, err, doc)
			}
			l, m = n, newTable("", "")
			m.loadXML(d, ver.IsV2())
			good++
		} else {
			err := l.LoadXMLString(doc)
			if (err != nil) != (d.Fault != 0) {
				return failf("%s: LoadXMLString: error %v, well-formed: %v\n%s", c.Ver, err, d.Fault == 0, doc)
			}
			if err == nil {
				m.loadXML(d, ver.IsV2())
				good++
			} else {
				bad++
			}
		}
		if err := m.compare(ver, l); err != nil {
			return failf("%s: after loading document %d (well-formed: %v): %v\n%s", c.Ver, i, d.Fault == 0, err, doc)
		}
	}
	r.Label("%s", c.Ver)
	if good > 0 {
		r.Label("loaded")
	}
	if bad > 0 {
		r.Label("refused")
	}
	if good+bad > 1 && len(m.e) > 1 {
		r.NonTrivial()
	}
	return nil
}

// RawXMLCase loads documents given as bytes.
type RawXMLCase struct {
	Ver  string `json:"ver"`
	Set  []KVs  `json:"set"`
	New  bool   `json:"new"`
	Docs []S    `json:"docs"`
}

var xmlBits = []string{"<", ">", "&", "\"", "'", "/", "=", "<entry", "</entry>", "<entry id=\"a\">", "<entry/>", "</language>", "<language>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>",
	"&amp;", "&lt", "&#65;", "&#x0;", "&#xD800;", "&nope;", " ", "\n", "\r", "\x00", "\x01", "\xff", "\xc3", "é", "\ufffe", "--", "x", " id=\"b\"", " status=\"s\"", "\ufeff", ";", "#"}

// damage changes a few bytes of a document.
func damage(t *rapid.T, s string) string {
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		at := intn(t, len(s)+1)
		to := at + intn(t, 12)
		if to > len(s) {
			to = len(s)
		}
		switch intn(t, 7) {
		case 0, 1:
			s = s[:at] + pick(t, xmlBits) + s[at:]
		case 2:
			s = s[:at] + s[to:]
		case 3:
			if at < len(s) {
				s = s[:at] + s[at+1:]
			}
		case 4:
			s = s[:to] + s[at:]
		case 5:
			s = s[:at] + pick(t, xmlBits) + s[to:]
		case 6: // a delimiter is lost or doubled
			var pos []int
			for j := range s {
				if strings.IndexByte("<>&;\"'/=-![]", s[j]) >= 0 {
					pos = append(pos, j)
				}
			}
			if len(pos) > 0 {
				j := pick(t, pos)
				if chance(t, 50) {
					s = s[:j] + s[j+1:]
				} else {
					s = s[:j] + s[j:j+1] + s[j:]
				}
			}
		}
	}
	return s
}

func genRawXML(t *rapid.T) *RawXMLCase {
	c := &RawXMLCase{Ver: genVer(t), New: chance(t, 30)}
	for i, n := 0, intn(t, 4); i < n; i++ {
		c.Set = append(c.Set, KVs{S(pick(t, langKeys)), S(genString(t))})
	}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		d := genDoc(t, 0)
		c.Docs = append(c.Docs, S(damage(t, d.write())))
	}
	return c
}

// readDoc reads a document token by token. Ill-formed documents give an error; known is
// false if it is left open what the document means.
func readDoc(doc string, v2 bool) (d *XDoc, known bool, err error) {
	known = true
	doc = strings.TrimPrefix(doc, "\ufeff")
	if i := strings.LastIndex(doc, "<?xml"); i > 0 {
		known = false // a declaration that is not at the start, or another instruction
	}
	dec := xml.NewDecoder(strings.NewReader(doc))
	dec.CharsetReader = func(_ string, in io.Reader) (io.Reader, error) { known = false; return in, nil }
	attrs := func(e xml.StartElement) map[string]string {
		m := map[string]string{}
		for _, a := range e.Attr {
			if _, twice := m[a.Name.Local]; twice || a.Name.Space != "" || a.Name.Local == "xmlns" {
				known = false
			}
			m[a.Name.Local] = a.Value
		}
		return m
	}
	depth := 0
	for {
		tok, err := dec.Token()
		if err == io.EOF && d != nil {
			return d, known, nil
		}
		if err != nil {
			return nil, known, err
		}
		switch x := tok.(type) {
		case xml.Directive:
			known = false
		case xml.StartElement:
			a := attrs(x)
			if x.Name.Space != "" {
				known = false
			}
			switch depth {
			case 0:
				if d != nil {
					return nil, known, errNesting
				}
				d = &XDoc{Name: S(a["id"]), Lang: a["lang"]}
				ok := false
				for _, l := range langTags {
					ok = ok || l == d.Lang
				}
				if _, named := a["id"]; !named || !ok || x.Name.Local != "language" {
					known = false
				}
			case 1:
				id, ok := a["id"]
				if x.Name.Local != "entry" || !ok {
					known = false
				}
				e := XEntry{ID: S(id)}
				if st, ok := a["status"]; ok {
					s := S(st)
					e.Status = &s
				}
				d.Entries = append(d.Entries, e)
			default:
				known = false
			}
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			switch depth {
			case 0:
				if strings.Trim(string(x), " \t\r\n") != "" {
					return nil, known, errNesting
				}
			case 2:
				e := &d.Entries[len(d.Entries)-1]
				e.Text = append(e.Text, Piece{T: S(x)})
			}
		}
	}
}

func runRawXML(r *R, c *RawXMLCase) error {
	ver := verOf(c.Ver)
	l := ver.NewLang("start", "en")
	m := newTable("start", "en")
	for i, e := range c.Set {
		k, v := string(e.K), string(e.V)
		l.Set(k, v)
		m.e[k] = v
		if ver.IsV2() && i%2 == 0 {
			l.SetStatus(k, "s"+v)
			m.st[k] = "s" + v
		}
	}
	for i, doc := range c.Docs {
		d, known, derr := readDoc(string(doc), ver.IsV2())
		var err error
		if i == 0 && c.New {
			var n Lang
			n, err = ver.LangFromXMLString(string(doc))
			if (n == nil) != (err != nil) {
				return failf("%s: NewXLanguageFromXMLString: table %v, error %v\n%s", c.Ver, n != nil, err, doc)
			}
			if err == nil {
				l, m = n, newTable("", "")
			}
		} else {
			err = l.LoadXMLString(string(doc))
		}
		switch {
		case derr != nil && err == nil && known:
			return failf("%s: a document that is not well-formed (%v) is loaded\n%s", c.Ver, derr, doc)
		case derr == nil && err != nil && known:
			return failf("%s: a well-formed document is refused: %v\n%s", c.Ver, err, doc)
		case err != nil:
			r.Label("refused")
		case !known:
			r.Label("open")
			return nil
		default:
			r.Label("loaded")
			m.loadXML(d, ver.IsV2())
		}
		if err2 := m.compare(ver, l); err2 != nil {
			return failf("%s: after loading document %d (error: %v): %v\n%s", c.Ver, i, err, err2, doc)
		}
	}
	r.Label("%s", c.Ver)
	if len(c.Docs) > 0 {
		r.NonTrivial()
	}
	return nil
}

// --- C26 ------------------------------------------------------------------------------

// LangOp is a call on a language table.
type LangOp struct {
	Op  string `json:"op"`
	K   S      `json:"k,omitempty"`
	V   S      `json:"v,omitempty"`
	Doc *XDoc  `json:"doc,omitempty"`
}

// LangCase is a history of a language table.
type LangCase struct {
	Ver string   `json:"ver"`
	Ops []LangOp `json:"ops"`
}

func genLang(t *rapid.T) *LangCase {
	c := &LangCase{Ver: genVer(t)}
	n := between(t, 2, 16)
	if chance(t, 5) {
		n = between(t, 20, 60)
	}
	for i := 0; i < n; i++ {
		op := LangOp{K: S(orWord(t, 3, pick(t, langKeys), nil))}
		if chance(t, 5) {
			op.K = S(wideKey(intn(t, 40)))
		}
		switch weighted(t, []int{8, 3, 3, 1, 1, 1, 2, 2}) {
		case 0:
			op.Op, op.V = "set", S(genString(t))
			if chance(t, 10) {
				op.K = S(genString(t))
			}
		case 1:
			op.Op = "del"
		case 2:
			op.Op, op.V = "status", S(genString(t))
		case 3:
			op.Op, op.V = "name", S(genString(t))
		case 4:
			op.Op, op.V = "language", S(pick(t, langTags))
		case 5:
			op.Op, op.V = "text", S(genFlatText(t))
		case 6:
			d := genDoc(t, 20)
			op.Op, op.Doc = "xml", &d
		case 7:
			op.Op, op.V = "entries", S(genString(t))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runLang(r *R, c *LangCase) error {
	ver := verOf(c.Ver)
	l := ver.NewLang("start", "fr")
	m := newTable("start", "fr")
	type held struct{ got, want map[string]string }
	var copies []held
	used := map[string]bool{}
	for i := range c.Ops {
		op := &c.Ops[i]
		k := string(op.K)
		switch op.Op {
		case "set":
			l.Set(k, string(op.V))
			m.e[k] = string(op.V)
		case "del":
			l.Del(k)
			delete(m.e, k)
			delete(m.st, k)
			delete(m.vague, k)
		case "status":
			l.SetStatus(k, string(op.V))
			m.st[k] = string(op.V)
			delete(m.vague, k)
		case "name":
			l.SetName(string(op.V))
			m.name = string(op.V)
		case "language":
			ok := false
			for _, x := range langTags {
				ok = ok || x == string(op.V)
			}
			if !ok {
				return errDiscard
			}
			l.SetLanguage(string(op.V))
			m.lang = string(op.V)
		case "text":
			if err := l.LoadString(string(op.V)); err != nil {
				return failf("%s: LoadString(%q): %v", c.Ver, op.V, err)
			}
			m.loadFlat(string(op.V))
		case "xml":
			if op.Doc == nil || !(&XMLCase{Docs: []XDoc{*op.Doc}}).sane() {
				return errDiscard
			}
			if err := l.LoadXMLString(op.Doc.write()); err == nil && op.Doc.Fault == 0 {
				m.loadXML(op.Doc, ver.IsV2())
			} else if err == nil || op.Doc.Fault == 0 {
				return failf("%s: LoadXMLString: error %v, well-formed: %v", c.Ver, err, op.Doc.Fault == 0)
			}
		case "entries":
			if !ver.IsV2() {
				continue
			}
			e := l.Entries()
			if !sameMap(e, m.e) {
				return failf("%s, step %d: GetEntries() = %q, expected %q", c.Ver, i, e, m.e)
			}
			if e == nil {
				return failf("%s, step %d: GetEntries() = nil, which cannot be changed", c.Ver, i)
			}
			if len(op.V)%2 == 0 { // change it
				e[k] = "changed " + string(op.V)
				delete(e, "a")
			}
			w := map[string]string{}
			for k, v := range e {
				w[k] = v
			}
			copies = append(copies, held{e, w})
		default:
			continue
		}
		used[op.Op] = true
		if err := m.compare(ver, l); err != nil {
			return failf("%s, after step %d (%s %q): %v", c.Ver, i, op.Op, op.K, err)
		}
		for _, h := range copies {
			if !sameMap(h.got, h.want) {
				return failf("%s, after step %d (%s %q): a table returned by GetEntries before changed: %q, was %q", c.Ver, i, op.Op, op.K, h.got, h.want)
			}
		}
	}
	r.Label("%s", c.Ver)
	for k := range used {
		r.Label("%s", k)
	}
	if len(used) > 2 {
		r.NonTrivial()
	}
	return nil
}

// --- C29 ------------------------------------------------------------------------------

// ExportCase is a table to export and load again.
type ExportCase struct {
	Name   S      `json:"name"`
	Lang   string `json:"lang"`
	Set    []KVs  `json:"set"`
	Status []KVs  `json:"status"`
	Doc    *XDoc  `json:"doc,omitempty"` // loaded first
	Del    []S    `json:"del"`
}

func genExport(t *rapid.T) *ExportCase {
	c := &ExportCase{Name: S(genXMLText(t, 3)), Lang: pick(t, langTags)}
	if chance(t, 30) {
		d := genDoc(t, 0)
		c.Doc = &d
	}
	key := func() S {
		if chance(t, 60) {
			return S(orWord(t, 4, pick(t, langKeys), xmlLegal))
		}
		return S(genXMLText(t, 3))
	}
	var keys []S
	if chance(t, 3) {
		for i, n := 0, between(t, 10, 100); i < n; i++ {
			c.Set = append(c.Set, KVs{S(wideKey(i)), S(strings.Repeat("<", i))})
			if i%3 == 0 {
				c.Status = append(c.Status, KVs{S(wideKey(i)), S("s" + wideKey(i))})
			}
		}
	}
	for i, n := 0, intn(t, 6); i < n; i++ {
		k := key()
		keys = append(keys, k)
		v := genXMLText(t, 5)
		if chance(t, 15) {
			v = xmlOnly(rapid.String().Draw(t, "s"))
		}
		c.Set = append(c.Set, KVs{k, S(v)})
	}
	for i, n := 0, intn(t, 4); i < n; i++ {
		k := key()
		if len(keys) > 0 && chance(t, 80) {
			k = pick(t, keys)
		}
		c.Status = append(c.Status, KVs{k, S(genXMLText(t, 3))})
	}
	if len(keys) > 0 && chance(t, 20) {
		c.Del = append(c.Del, pick(t, keys))
	}
	return c
}

func xmlChar(c rune) bool {
	return c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd || c >= 0x10000 && c <= 0x10ffff
}

func xmlOnly(s string) string {
	var b strings.Builder
	for _, c := range s {
		if xmlChar(c) {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func runExport(r *R, c *ExportCase) error {
	ver := V2{}
	if !(&XMLCase{Docs: []XDoc{{Lang: c.Lang}}}).sane() {
		return errDiscard
	}
	l := ver.NewLang("first", "en")
	m := newTable("first", "en")
	if c.Doc != nil {
		if c.Doc.Fault != 0 || !(&XMLCase{Docs: []XDoc{*c.Doc}}).sane() {
			return errDiscard
		}
		if err := l.LoadXMLString(c.Doc.write()); err != nil {
			return errDiscard
		}
		m.loadXML(c.Doc, true)
	}
	l.SetName(xmlOnly(string(c.Name)))
	l.SetLanguage(c.Lang)
	m.name, m.lang = xmlOnly(string(c.Name)), c.Lang
	for _, e := range c.Set {
		k, v := xmlOnly(string(e.K)), xmlOnly(string(e.V))
		l.Set(k, v)
		m.e[k] = v
	}
	for _, e := range c.Status {
		k, v := xmlOnly(string(e.K)), xmlOnly(string(e.V))
		l.SetStatus(k, v)
		m.st[k] = v
		delete(m.vague, k)
	}
	for _, k := range c.Del {
		l.Del(string(k))
		delete(m.e, string(k))
		delete(m.st, string(k))
	}
	doc := l.GetXML()
	n, err := ver.LangFromXMLString(doc)
	if err != nil || n == nil {
		return failf("the exported document does not load: %v\n%s", err, doc)
	}
	want := newTable(m.name, m.lang)
	for k, v := range m.e {
		want.e[k] = v
		want.st[k] = m.st[k]
		if m.vague[k] {
			want.st[k] = l.GetStatus(k)
		}
	}
	if err := want.compare(ver, n); err != nil {
		return failf("loaded from its exported document, %v\n%s", err, doc)
	}
	if doc2 := n.GetXML(); doc2 != doc {
		return failf("the table loaded from the exported document exports another document:\n%s\ninstead of\n%s", doc2, doc)
	}
	if doc2 := l.GetXML(); doc2 != doc {
		return failf("exported twice, the documents differ:\n%s\nand\n%s", doc2, doc)
	}
	all := m.name
	for k, v := range m.e {
		all += k + v + m.st[k]
	}
	for _, x := range []string{"]]>", "\r", "<", "&", "\""} {
		if strings.Contains(all, x) {
			r.Label("with %q", x)
		}
	}
	if len(m.e) > 1 {
		r.NonTrivial()
	}
	return nil
}

// --- C30 ------------------------------------------------------------------------------

// FileCase loads the same bytes from a file and from a string.
type FileCase struct {
	Ver  string `json:"ver"`
	Kind string `json:"kind"` // template, text, xml
	// First is loaded before from a string; Content then from a file or a string.
	First   *S     `json:"first,omitempty"`
	Content S      `json:"content"`
	Pad     int    `json:"pad,omitempty"`
	Path    string `json:"path"` // file, or something that cannot be read: missing, dir, empty, deep
	Data    *Val   `json:"data,omitempty"`
	// Again: the same file was loaded before, with First in it. 1: at the same time,
	// 2: later, 3: at the same time, with the same length.
	Again int    `json:"again,omitempty"`
	Name  string `json:"name,omitempty"` // of the file
	Via   int    `json:"via,omitempty"`  // 1: a symbolic link, 2: a path with dots
}

var fileNames = []string{"a b.txt", "é日", "-x", "100%s", "~", "$HOME", "*", ".hidden", "x.xml", "a#b?c=d", "file:", "a\\b", "x.gz", "%41", "a\nb", strings.Repeat("n", 250)}

// fileName: the word can be the name of a file.
func fileName(w string) bool {
	return w == filepath.Base(w) && w != "." && w != ".." && w != "link" && len(w) <= 250 && !strings.Contains(w, "\x00") && utf8.ValidString(w)
}

func genFile(t *rapid.T) *FileCase {
	c := &FileCase{Ver: genVer(t), Kind: pick(t, []string{"template", "text", "xml"})}
	c.Path = "file"
	if chance(t, 15) {
		c.Path = pick(t, []string{"missing", "dir", "empty", "deep"})
	}
	c.Data = genData(t, c.Ver, 1)
	content := func() string {
		s := ""
		switch c.Kind {
		case "template":
			s = genBracketSrc(t, c.Ver == "v2", c.Data)
		case "text":
			s = genFlatText(t)
		default:
			d := genDoc(t, 25)
			s = d.write()
		}
		switch intn(t, 12) {
		case 0:
			s = "\xef\xbb\xbf" + s
		case 1:
			s += pick(t, []string{"\r\n", "\n", "\r", " ", "\x00", "\x1a", "\xff"})
		case 2:
			s = strings.ReplaceAll(s, "\n", "\r\n")
		case 3:
			s = ""
		case 4:
			s = orWord(t, 50, "", nil) + s
		}
		return s
	}
	c.Content = S(content())
	if chance(t, 50) {
		s := S(content())
		c.First = &s
	}
	if chance(t, 2) {
		c.Pad = pick(t, []int{511, 4096, 65536, 70000, 200000, 1100000})
	}
	if c.First != nil && chance(t, 40) {
		c.Again = between(t, 1, 4)
	}
	if chance(t, 15) {
		c.Name = orWord(t, 40, pick(t, fileNames), fileName)
	}
	if chance(t, 20) {
		c.Via = between(t, 1, 3)
	}
	return c
}

func runFile(r *R, c *FileCase) error {
	if c.Pad < 0 || c.Pad > 1<<22 {
		return errDiscard
	}
	ver := verOf(c.Ver)
	content := string(c.Content)
	if c.Pad > 0 {
		content += strings.Repeat("pad ", c.Pad/4)
	}
	dir, err := os.MkdirTemp(scratch, "c30")
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	name := c.Name
	if name == "" {
		name = "content"
	}
	if !fileName(name) {
		return errDiscard
	}
	path := filepath.Join(dir, name)
	file := path
	switch c.Via {
	case 1:
		path = filepath.Join(dir, "link")
		if name == "link" || os.Symlink(file, path) != nil {
			return errDiscard
		}
	case 2:
		path = dir + "//../" + filepath.Base(dir) + "/./" + name
	}
	write := func(s string, age int) error {
		if err := os.WriteFile(file, []byte(s), 0644); err != nil {
			return err
		}
		when := time.Unix(1700000000-int64(age), 0)
		return os.Chtimes(file, when, when)
	}
	if c.Again != 0 && c.First != nil && c.Path == "file" {
		first := string(*c.First)
		if n := len(content) - len(first); c.Again == 3 && n > 0 {
			first += strings.Repeat(" ", n)
		} else if c.Again == 3 {
			content += strings.Repeat(" ", -n)
		}
		age := 0
		if c.Again == 2 {
			age = 1000
		}
		if err := write(first, age); err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		switch c.Kind {
		case "template":
			ver.TmplFromFile(path)
		case "text":
			ver.LangFromFile(path)
		case "xml":
			ver.LangFromXMLFile(path)
		}
		r.Label("file rewritten")
	}
	if err := write(content, 0); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	readable := false
	switch c.Path {
	case "file":
		readable = true
	case "missing":
		path += ".not"
	case "dir":
		path = dir
	case "empty":
		path = ""
	case "deep":
		path += "/below"
	default:
		return errDiscard
	}
	var e error
	if c.Kind == "template" {
		e = fileTemplate(ver, c, content, path, readable)
	} else {
		e = fileLang(ver, c, content, path, readable)
	}
	if e == errDiscard {
		return e
	}
	if e != nil {
		return failKind(e, "%s %s (%s): %v", c.Ver, c.Kind, c.Path, e)
	}
	r.Label("%s %s %s", c.Ver, c.Kind, c.Path)
	if c.First != nil || !readable {
		r.NonTrivial()
	}
	return nil
}

func fileTemplate(ver Ver, c *FileCase, content, path string, readable bool) error {
	if c.Data == nil {
		return errDiscard
	}
	data, md := buildDS(ver, c.Data)
	v2 := ver.IsV2()
	// nothing that renders without end
	m := &MTmpl{}
	for _, s := range []*S{c.First, (*S)(&content)} {
		if s == nil {
			continue
		}
		one, err, vague := parseModel(string(*s), v2)
		if vague {
			return errDiscard
		}
		if err == nil && one.recursive(v2, md) {
			return errDiscard
		}
		m.parse(string(*s), v2)
	}
	if m.recursive(v2, md) {
		return errDiscard
	}
	a, aerr := ver.TmplFromFile(path)
	b, berr := ver.TmplFromString(content)
	if !readable {
		if aerr == nil || a != nil {
			return failf("NewXTemplateFromFile of an unreadable file: template %v, error %v", a != nil, aerr)
		}
	} else {
		if (aerr != nil) != (berr != nil) || (a == nil) != (b == nil) {
			return failf("from the file: template %v, error %v; from the string: template %v, error %v", a != nil, aerr, b != nil, berr)
		}
		if a != nil {
			if d := diff(snapshot(b, data, 2), snapshot(a, data, 2)); d != "" {
				return failf("from the string and from the file: %s", d)
			}
		}
	}
	if c.First == nil {
		return nil
	}
	a, aerr = ver.TmplFromString(string(*c.First))
	b, _ = ver.TmplFromString(string(*c.First))
	if aerr != nil {
		return nil
	}
	before := snapshot(a, data, 2)
	aerr = a.LoadFile(path)
	if !readable {
		if aerr == nil {
			return failf("LoadFile of an unreadable file: no error")
		}
		if d := diff(before, snapshot(a, data, 2)); d != "" {
			return failf("LoadFile of an unreadable file changed the template: %s", d)
		}
		return nil
	}
	berr = b.LoadString(content)
	if (aerr != nil) != (berr != nil) {
		return failf("LoadFile: %v; LoadString: %v", aerr, berr)
	}
	if d := diff(snapshot(b, data, 2), snapshot(a, data, 2)); d != "" {
		return failf("loaded from the string and from the file: %s", d)
	}
	return nil
}

func langState(l Lang) []string {
	out := []string{"name " + l.GetName(), "language " + l.GetLanguage(), "text " + l.String(), "xml " + l.GetXML()}
	e := l.Entries()
	for _, k := range langKeys {
		out = append(out, fmt.Sprintf("%q: %q status %q", k, e[k], l.GetStatus(k)))
	}
	return out
}

func fileLang(ver Ver, c *FileCase, content, path string, readable bool) error {
	fromFile, fromString := ver.LangFromFile, ver.LangFromString
	loadFile, loadString := Lang.LoadFile, Lang.LoadString
	if c.Kind == "xml" {
		fromFile, fromString = ver.LangFromXMLFile, ver.LangFromXMLString
		loadFile, loadString = Lang.LoadXMLFile, Lang.LoadXMLString
	}
	a, aerr := fromFile(path)
	b, berr := fromString(content)
	if !readable {
		if aerr == nil || a != nil {
			return failf("the constructor on an unreadable file: table %v, error %v", a != nil, aerr)
		}
	} else {
		if (aerr != nil) != (berr != nil) || (a == nil) != (b == nil) {
			return failf("from the file: table %v, error %v; from the string: table %v, error %v", a != nil, aerr, b != nil, berr)
		}
		if a != nil {
			if d := diff(langState(b), langState(a)); d != "" {
				return failf("from the string and from the file: %s", d)
			}
		}
	}
	a, b = ver.NewLang("first", "en"), ver.NewLang("first", "en")
	for _, l := range []Lang{a, b} {
		l.Set("a", "one")
		l.SetStatus("a", "s")
		if c.First != nil {
			loadString(l, string(*c.First))
		}
	}
	before := langState(a)
	aerr = loadFile(a, path)
	if !readable {
		if aerr == nil {
			return failf("loading an unreadable file: no error")
		}
		if d := diff(before, langState(a)); d != "" {
			return failf("loading an unreadable file changed the table: %s", d)
		}
		return nil
	}
	berr = loadString(b, content)
	if (aerr != nil) != (berr != nil) {
		return failf("loading the file: %v; loading the string: %v", aerr, berr)
	}
	if d := diff(langState(b), langState(a)); d != "" {
		return failf("loaded from the string and from the file: %s", d)
	}
	return nil
}

// --- C31 ------------------------------------------------------------------------------

// LangConcCase is a language table used by several goroutines.
type LangConcCase struct {
	Prog [][]TSOp `json:"prog"`
}

var langConcOps = []string{"Set", "Set", "Get", "Get", "Del", "SetStatus", "GetStatus", "SetName", "GetName", "SetLanguage", "GetLanguage",
	"LoadString", "LoadXMLString", "GetEntries", "GetXML", "String", "GoString"}

func genLangConc(t *rapid.T) *LangConcCase {
	c := &LangConcCase{}
	for g, n := 0, between(t, 2, 4); g < n; g++ {
		var p []TSOp
		for i, m := 0, between(t, 1, 6); i < m; i++ {
			p = append(p, TSOp{pick(t, langConcOps), intn(t, 2)})
		}
		c.Prog = append(c.Prog, p)
	}
	return c
}

// langModel: one register for an entry and its status, one for the name, one for the language.
var langModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			m[o.Input.(tsIn).key] = append(m[o.Input.(tsIn).key], o)
		}
		var out [][]porcupine.Operation
		for k := 0; k < 4; k++ {
			if len(m[k]) > 0 {
				out = append(out, m[k])
			}
		}
		return out
	},
	Init: func() interface{} { return [2]int{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s := state.([2]int)
		in := input.(tsIn)
		switch in.op {
		case "Set":
			s[0] = in.val
		case "Del":
			s = [2]int{}
		case "SetStatus":
			s[1] = in.val
		case "Get":
			return output.(string) == langVal(s[0]), s
		case "GetStatus":
			return output.(string) == langVal(s[1]), s
		}
		return true, s
	},
}

func langVal(n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("v%d", n)
}

func runLangConc(r *R, c *LangConcCase) error {
	for _, p := range c.Prog {
		for _, op := range p {
			if op.K < 0 || op.K > 1 {
				return errDiscard
			}
		}
	}
	ver := V2{}
	l := ver.NewLang("", "und")
	h := newHistory(len(c.Prog))
	keys := []string{"a", "b"}
	tag := func(n int) string { return langTags[n%len(langTags)] }
	const name, language = 2, 3
	err := parallel(len(c.Prog), func(g int) error {
		for i, op := range c.Prog[g] {
			n := 10 + g*10 + i
			k := keys[op.K]
			call := h.call()
			switch op.Op {
			case "Set":
				l.Set(k, langVal(n))
				h.ret(g, call, tsIn{"Set", op.K, n}, nil)
			case "Get":
				h.ret(g, call, tsIn{"Get", op.K, 0}, l.Get(k))
			case "Del":
				l.Del(k)
				h.ret(g, call, tsIn{"Del", op.K, 0}, nil)
			case "SetStatus":
				l.SetStatus(k, langVal(n))
				h.ret(g, call, tsIn{"SetStatus", op.K, n}, nil)
			case "GetStatus":
				h.ret(g, call, tsIn{"GetStatus", op.K, 0}, l.GetStatus(k))
			case "SetName":
				l.SetName(langVal(n))
				h.ret(g, call, tsIn{"Set", name, n}, nil)
			case "GetName":
				h.ret(g, call, tsIn{"Get", name, 0}, l.GetName())
			case "SetLanguage":
				l.SetLanguage(tag(n))
				h.ret(g, call, tsIn{"Set", language, n%len(langTags) + 1000}, nil)
			case "GetLanguage":
				got := l.GetLanguage()
				out := "?" + got
				for i, x := range langTags {
					if x == got {
						out = langVal(i + 1000)
					}
				}
				if got == "und" { // also the language at the beginning
					continue
				}
				h.ret(g, call, tsIn{"Get", language, 0}, out)
			case "LoadString":
				if err := l.LoadString("# x\n" + k + " = " + langVal(n) + "\nother=1\n"); err != nil {
					return failf("LoadString: %v", err)
				}
				h.ret(g, call, tsIn{"Set", op.K, n}, nil)
			case "LoadXMLString":
				doc := fmt.Sprintf("<language id=\"%s\" lang=\"%s\"><entry id=\"%s\" status=\"%s\">%s</entry></language>", langVal(n), tag(n), k, langVal(n), langVal(n))
				if err := l.LoadXMLString(doc); err != nil {
					return failf("LoadXMLString: %v", err)
				}
				ret := h.call()
				h.add(g, call, ret, tsIn{"Set", op.K, n}, nil)
				h.add(g, call, ret, tsIn{"SetStatus", op.K, n}, nil)
				h.add(g, call, ret, tsIn{"Set", name, n}, nil)
				h.add(g, call, ret, tsIn{"Set", language, n%len(langTags) + 1000}, nil)
			case "GetEntries":
				e := l.Entries()
				ret := h.call()
				for i, k := range keys {
					h.add(g, call, ret, tsIn{"Get", i, 0}, e[k])
				}
				e["a"] = "mine"
			case "GetXML":
				if n, err := ver.LangFromXMLString(l.GetXML()); err != nil || n == nil {
					return failf("the document exported does not load: %v", err)
				}
			case "String":
				if s := l.String(); !strings.HasPrefix(s, "xcore.XLanguage{") {
					return failf("String() = %q", s)
				}
			case "GoString":
				if s := l.GoString(); !strings.HasPrefix(s, "#xcore.XLanguage{") {
					return failf("GoString() = %q", s)
				}
			}
		}
		return nil
	})
	if err == nil {
		err = h.check(langModel)
	}
	if err != nil {
		return err
	}
	for _, p := range c.Prog {
		for _, op := range p {
			r.Label("%s", op.Op)
		}
	}
	if len(c.Prog) > 1 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	Add(Part{Prop: "C26", Name: "table", Quick: 480000, Rule: "three or more kinds of calls were made"},
		genLang, runLang)
	Add(Part{Prop: "C27", Name: "text", Quick: 1200000, Rule: "more than two = signs in the texts and more than one entry in the table"},
		genFlat, runFlat)
	Add(Part{Prop: "C28", Name: "xml", Quick: 240000, Rule: "two or more documents were loaded or refused and the table has more than one entry"},
		genXML, runXML)
	Add(Part{Prop: "C28", Name: "damaged", Quick: 240000, Rule: "what the document means is settled: it is refused, or loaded entry by entry"},
		genRawXML, runRawXML)
	Add(Part{Prop: "C29", Name: "export", Quick: 480000, Rule: "the table has more than one entry"},
		genExport, runExport)
	Add(Part{Prop: "C30", Name: "file", Quick: 36000, Rule: "the file was loaded into an existing object, or could not be read"},
		genFile, runFile)
	p := Add(Part{Prop: "C31", Name: "linear", Race: true, Stress: true, Reps: 4, Quick: 8000, Rule: "two or more goroutines"},
		genLangConc, runLangConc)
	WithShrink(p, func(c *LangConcCase) (out []*LangConcCase) {
		for _, p := range shrinkProg(c.Prog) {
			out = append(out, &LangConcCase{p})
		}
		return out
	})
}
