package model

import (
	"strconv"
	"strings"
	"unicode"
)

// Typer is the reference as-you-type formatter.
type Typer struct {
	w      *World
	region string
	home   *Plan // plan of the region's main region
	plan   *Plan // plan in force

	raw      []rune // everything typed
	keys     string // digits and leading plus typed, as ASCII
	national string // the national number part
	prefix   string // what precedes it in the output
	ndd      string // extracted national prefix

	formats  []*NumFmt
	curPat   string
	template []rune // blanks are runes of value hole
	filled   int
	addSpace bool
	able     bool
	literal  bool // the user typed formatting
	complete bool
	needCC   bool
	remRaw   int
	remKeys  int
	out      string
}

const hole = -1

var nowhere = &Plan{ID: "<none>", IntlPrefix: "NA"}

// NewTyper starts a formatter for region.
func (w *World) NewTyper(region string) *Typer {
	t := &Typer{w: w, region: region}
	t.home = t.planOf(region)
	t.Clear()
	return t
}

func (t *Typer) planOf(region string) *Plan {
	p := t.w.region(region)
	if p == nil {
		return nowhere
	}
	if m := t.w.region(t.w.mainRegion(p.CC)); m != nil {
		return m
	}
	return nowhere
}

// Clear starts a new number.
func (t *Typer) Clear() { *t = Typer{w: t.w, region: t.region, home: t.home, plan: t.home, able: true} }

// Type adds a character and returns the text to show.
func (t *Typer) Type(c rune, remember bool) string {
	t.out = t.step(c, remember)
	return t.out
}

func (t *Typer) typed() string { return string(t.raw) }

func (t *Typer) step(c rune, remember bool) string {
	if c < 0 || c > unicode.MaxRune || c >= 0xD800 && c < 0xE000 {
		t.raw = append(t.raw, unicode.ReplacementChar)
	} else {
		t.raw = append(t.raw, c)
	}
	if remember {
		t.remRaw = len(t.raw)
	}
	d := DigitVal(c)
	plus := len(t.raw) == 1 && isPlus(c)
	switch {
	case plus:
		t.keys += "+"
	case d >= 0:
		s := string(rune('0' + d))
		t.keys += s
		t.national += s
	default:
		t.able, t.literal = false, true
	}
	if (plus || d >= 0) && remember {
		t.remKeys = len(t.keys)
	}
	if !t.able {
		if !t.literal {
			if t.takeIDD() {
				if t.takeCC() {
					return t.restart()
				}
			} else if t.longerNDD() {
				t.prefix += " "
				return t.restart()
			}
		}
		return t.typed()
	}
	switch n := len(t.keys); {
	case n < 3:
		return t.typed()
	case n == 3:
		if !t.takeIDD() {
			t.ndd = t.takeNDD()
			return t.choose()
		}
		t.needCC = true
	}
	if t.needCC {
		if t.takeCC() {
			t.needCC = false
		}
		return t.prefix + t.national
	}
	if len(t.formats) == 0 {
		return t.choose()
	}
	part := t.fill(t.keys[len(t.keys)-1])
	if s := t.exact(); s != "" {
		return s
	}
	t.narrow()
	if t.newTemplate() {
		return t.refill()
	}
	if t.able {
		return t.join(part)
	}
	return t.typed()
}

func (t *Typer) restart() string {
	t.able, t.needCC = true, false
	t.formats, t.filled, t.template, t.curPat = nil, 0, nil, ""
	return t.choose()
}

// choose selects the candidate rules once three national digits are known.
func (t *Typer) choose() string {
	if len(t.national) < 3 {
		return t.join(t.national)
	}
	rules := t.plan.Formats
	if t.complete && t.ndd == "" && len(t.plan.IntlFormats) > 0 {
		rules = t.plan.IntlFormats
	}
	for _, f := range rules {
		plain := f.NPRule == "" || full(`\(?\$1\)?`, f.NPRule)
		if t.ndd != "" && plain && !f.NPOptional && f.CarrierRule == "" {
			continue
		}
		if t.ndd == "" && !t.complete && !plain && !f.NPOptional {
			continue
		}
		if full("["+punct+`]*\$1[`+punct+`]*(?:\$\d[`+punct+"]*)*", f.Format) {
			t.formats = append(t.formats, f)
		}
	}
	t.narrow()
	if s := t.exact(); s != "" {
		return s
	}
	if t.newTemplate() {
		return t.refill()
	}
	return t.typed()
}

// narrow drops rules whose leading digits do not match.
func (t *Typer) narrow() {
	var keep []*NumFmt
	for _, f := range t.formats {
		if len(f.Leading) > 0 {
			i := min(len(t.national)-3, len(f.Leading)-1)
			if at(f.Leading[i], t.national) < 0 {
				continue
			}
		}
		keep = append(keep, f)
	}
	t.formats = keep
}

// exact formats the digits if a rule matches them completely without changing
// any of them.
func (t *Typer) exact() string {
	for _, f := range t.formats {
		if !full(f.Pattern, t.national) {
			continue
		}
		t.addSpace = strings.ContainsAny(f.NPRule, "- ")
		s := t.join(substitute(`\A(?:`+f.Pattern+`)\z`, t.national, f.Format))
		if DiallableOnly(s) == t.keys {
			return s
		}
	}
	return ""
}

// newTemplate switches to the first rule that has room for the digits; it
// returns whether the template changed.
func (t *Typer) newTemplate() bool {
	for len(t.formats) > 0 {
		f := t.formats[0]
		if f.Pattern == t.curPat {
			return false
		}
		sample := re(f.Pattern).FindString(strings.Repeat("9", 15))
		t.template = nil
		if len(sample) >= len(t.national) {
			for _, r := range substitute(f.Pattern, sample, f.Format) {
				if r == '9' {
					r = hole
				}
				t.template = append(t.template, r)
			}
		}
		if len(t.template) > 0 {
			t.curPat, t.filled = f.Pattern, 0
			t.addSpace = strings.ContainsAny(f.NPRule, "- ")
			return true
		}
		t.formats = t.formats[1:]
	}
	t.able = false
	return false
}

// fill puts the next digit into the template.
func (t *Typer) fill(d byte) string {
	for i := t.filled; i < len(t.template); i++ {
		if t.template[i] == hole {
			t.template[i] = rune(d)
			t.filled = i
			return string(t.template[:i+1])
		}
	}
	if len(t.formats) == 1 {
		t.able = false
	}
	t.curPat = ""
	return t.typed()
}

func (t *Typer) refill() string {
	if t.national == "" {
		return t.prefix
	}
	s := ""
	for i := 0; i < len(t.national); i++ {
		s = t.fill(t.national[i])
	}
	if t.able {
		return t.join(s)
	}
	return t.typed()
}

func (t *Typer) join(s string) string {
	if t.addSpace && t.prefix != "" && !strings.HasSuffix(t.prefix, " ") {
		return t.prefix + " " + s
	}
	return t.prefix + s
}

// takeNDD moves a national prefix from the national number to the prefix.
func (t *Typer) takeNDD() string {
	n := 0
	if t.plan.CC == 1 && len(t.national) >= 2 && t.national[0] == '1' && t.national[1] != '0' && t.national[1] != '1' {
		n = 1
		t.prefix += "1 "
		t.complete = true
	} else if t.plan.NPForParsing != "" {
		if e := at(t.plan.NPForParsing, t.national); e > 0 {
			n = e
			t.prefix += t.national[:n]
			t.complete = true
		}
	}
	ndd := t.national[:n]
	t.national = t.national[n:]
	return ndd
}

// longerNDD puts the national prefix back and extracts again.
func (t *Typer) longerNDD() bool {
	if t.ndd != "" {
		t.national = t.ndd + t.national
		if i := strings.LastIndex(t.prefix, t.ndd); i >= 0 {
			t.prefix = t.prefix[:i]
		}
	}
	old := t.ndd
	nw := t.takeNDD()
	if old != "" {
		t.ndd = nw
	}
	return nw != old
}

func (t *Typer) takeIDD() bool {
	e := at(`\+|`+t.plan.IntlPrefix, t.keys)
	if e < 0 {
		return false
	}
	t.complete = true
	t.prefix, t.national = t.keys[:e], t.keys[e:]
	if t.keys[0] != '+' {
		t.prefix += " "
	}
	return true
}

func (t *Typer) takeCC() bool {
	cc, rest := t.w.countryPrefix(t.national)
	if cc == 0 {
		return false
	}
	t.national = rest
	if r := t.w.mainRegion(cc); r == "001" {
		t.plan = t.w.NonGeo[cc]
	} else if r != t.region {
		t.plan = t.planOf(r)
	}
	t.prefix += strconv.Itoa(cc) + " "
	t.ndd = ""
	return true
}

// Position returns the remembered position.
func (t *Typer) Position() int {
	if t.out == t.typed() {
		return t.remRaw
	}
	k, o := 0, 0
	for _, r := range t.out {
		if k >= t.remKeys {
			break
		}
		if r == rune(t.keys[k]) {
			k++
		}
		o++
	}
	return o
}
