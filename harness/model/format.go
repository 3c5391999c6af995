package model

import (
	"regexp"
	"strconv"
	"strings"
)

// pick returns the first rule applicable to nsn: the last (most specific)
// leading digits pattern matches its start and the pattern matches all of it.
func pick(rules []*NumFmt, nsn string) *NumFmt {
	for _, f := range rules {
		if k := len(f.Leading); k > 0 && at(f.Leading[k-1], nsn) < 0 {
			continue
		}
		if full(f.Pattern, nsn) {
			return f
		}
	}
	return nil
}

// substitute replaces every match of pattern in s by the expanded template.
func substitute(pattern, s, tmpl string) string {
	r := re(pattern)
	var b strings.Builder
	last := 0
	for _, m := range r.FindAllStringSubmatchIndex(s, -1) {
		b.WriteString(s[last:m[0]])
		b.WriteString(Expand(tmpl, func(i int) (string, bool) {
			if 2*i+1 >= len(m) || m[2*i] < 0 {
				return "", 2*i+1 < len(m)
			}
			return s[m[2*i]:m[2*i+1]], true
		}))
		last = m[1]
	}
	b.WriteString(s[last:])
	return b.String()
}

// firstToken puts rule in place of the first $N of format; $1 in the rule
// stands for that token.
func firstToken(format, rule string) string {
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '$' && format[i+1] >= '0' && format[i+1] <= '9' {
			tok := format[i : i+2]
			return format[:i] + strings.ReplaceAll(rule, "$1", tok) + format[i+2:]
		}
	}
	return format
}

// carrierMark stands for the carrier code in a rule being expanded.
const carrierMark = "\uE0CC"

// apply formats nsn by rule f.
func (f *NumFmt) apply(nsn string, s Style, carrier string) string {
	tmpl := f.Format
	if s == National {
		if carrier != "" && f.CarrierRule != "" {
			// the code goes in as it is, whatever characters it has
			tmpl = firstToken(tmpl, strings.Replace(f.CarrierRule, "$CC", carrierMark, 1))
		} else if f.NPRule != "" {
			tmpl = firstToken(tmpl, f.NPRule)
		}
	}
	out := strings.ReplaceAll(substitute(f.Pattern, nsn, tmpl), carrierMark, carrier)
	if s == RFC3966 {
		out = strings.Join(re("["+punct+"]+").Split(strings.TrimFunc(out, isPunct), -1), "-")
	}
	return out
}

var punctRE = regexp.MustCompile("^[" + punct + "]$")

func isPunct(r rune) bool { return punctRE.MatchString(string(r)) }

// nsnFormatted formats a national significant number under plan p.
func (p *Plan) nsnFormatted(nsn string, s Style, carrier string) string {
	rules := p.Formats
	if len(p.IntlFormats) > 0 && s != National {
		rules = p.IntlFormats
	}
	if f := pick(rules, nsn); f != nil {
		return f.apply(nsn, s, carrier)
	}
	return nsn
}

// extension is the formatted extension of n.
func (p *Plan) extension(n *Num, s Style) string {
	switch {
	case n.Ext == "":
		return ""
	case s == RFC3966:
		return ";ext=" + n.Ext
	case p.ExtnPrefix != "":
		return p.ExtnPrefix + n.Ext
	}
	return " ext. " + n.Ext
}

func withCode(cc int, s Style, body string) string {
	c := strconv.Itoa(cc)
	switch s {
	case E164:
		return "+" + c + body
	case International:
		return "+" + c + " " + body
	case RFC3966:
		return "tel:+" + c + "-" + body
	}
	return body
}

// Format formats n in a standard style.
func (w *World) Format(n *Num, s Style) string {
	if n.NN == 0 && n.Raw != "" {
		return n.Raw
	}
	nsn := n.NSN()
	if s == E164 {
		return withCode(n.CC, E164, nsn)
	}
	p := w.MainPlan(n.CC)
	if p == nil {
		return nsn
	}
	return withCode(n.CC, s, p.nsnFormatted(nsn, s, "")+p.extension(n, s))
}

// FormatByPattern formats n by the first applicable of the given rules.
func (w *World) FormatByPattern(n *Num, s Style, rules []*NumFmt) string {
	nsn := n.NSN()
	p := w.MainPlan(n.CC)
	if p == nil {
		return nsn
	}
	body := nsn
	if f := pick(rules, nsn); f != nil {
		c := *f
		if p.NatPrefix == "" {
			c.NPRule = ""
		} else {
			c.NPRule = strings.ReplaceAll(strings.ReplaceAll(c.NPRule, "$NP", p.NatPrefix), "$FG", "$1")
		}
		body = c.apply(nsn, s, "")
	}
	return withCode(n.CC, s, body+p.extension(n, s))
}

// FormatCarrier formats n nationally with a carrier code.
func (w *World) FormatCarrier(n *Num, carrier string) string {
	p := w.MainPlan(n.CC)
	if p == nil {
		return n.NSN()
	}
	return p.nsnFormatted(n.NSN(), National, carrier) + p.extension(n, National)
}

// FormatPreferredCarrier formats n with its own carrier code or the fallback.
func (w *World) FormatPreferredCarrier(n *Num, fallback string) string {
	if n.Carrier != "" {
		fallback = n.Carrier
	}
	return w.FormatCarrier(n, fallback)
}

// FormatMobile formats n for dialling from a mobile phone in region from.
func (w *World) FormatMobile(in *Num, from string, pretty bool) string {
	p := w.MainPlan(in.CC)
	if p == nil {
		return in.Raw
	}
	n := *in
	n.Ext = ""
	region := w.mainRegion(n.CC)
	t := w.TypeOf(&n)
	plain := t == TFixed || t == TMobile || t == TFixedOrMobile
	intl := w.CanDialIntl(&n)
	out := ""
	if from != region {
		if t == TUnknown || !intl {
			return ""
		}
		if pretty {
			return w.Format(&n, International)
		}
		return w.Format(&n, E164)
	}
	var style Style
	switch {
	case region == "BR" && plain:
		if n.Carrier != "" {
			out = w.FormatCarrier(&n, n.Carrier)
		}
		style = -1
	case n.CC == 1:
		style = National
		if intl && p.lengthCheck(len(n.NSN()), TUnknown) != TooShort {
			style = International
		}
	default:
		style = National
		if intl && (region == "001" || plain && (region == "MX" || region == "CL" || region == "UZ")) {
			style = International
		}
	}
	if style >= 0 {
		out = w.Format(&n, style)
	}
	if !pretty {
		out = DiallableOnly(out)
	}
	return out
}

const singleIDD = `\d+(?:[~\x{2053}\x{223C}\x{FF5E}]\d+)?`

// FormatFrom formats n for dialling from region from.
func (w *World) FormatFrom(n *Num, from string) string {
	caller := w.region(from)
	if caller == nil {
		return w.Format(n, International)
	}
	p := w.MainPlan(n.CC)
	if p == nil {
		return n.NSN()
	}
	if n.CC == 1 {
		if w.NANPA[from] {
			return "1 " + w.Format(n, National)
		}
	} else if n.CC == caller.CC {
		return w.Format(n, National)
	}
	idd := ""
	if caller.PrefIntl != "" {
		idd = caller.PrefIntl
	} else if full(singleIDD, caller.IntlPrefix) {
		idd = caller.IntlPrefix
	}
	body := p.nsnFormatted(n.NSN(), International, "") + p.extension(n, International)
	if idd == "" {
		return withCode(n.CC, International, body)
	}
	return idd + " " + strconv.Itoa(n.CC) + " " + body
}

// alphaKept maps a raw input character to what the alpha-keeping format shows.
func alphaKept(r rune) (rune, bool) {
	if r >= 'a' && r <= 'z' {
		return r - 32, true
	}
	switch {
	case r >= '0' && r <= '9', r >= 'A' && r <= 'Z':
		return r, true
	case r == '+' || r == '*' || r == '-' || r == '/' || r == ' ' || r == '.':
		return r, true
	case r == 0xFF0D || r >= 0x2010 && r <= 0x2015 || r == 0x2212:
		return '-', true
	case r == 0xFF0F:
		return '/', true
	case r == 0x3000 || r == 0x2060:
		return ' ', true
	case r == 0xFF0E:
		return '.', true
	}
	// letters whose upper case is an ASCII letter
	if r == 0x131 {
		return 'I', true
	}
	if r == 0x17F {
		return 'S', true
	}
	return 0, false
}

// FormatFromAlpha is FormatFrom keeping the letters of the raw input.
func (w *World) FormatFromAlpha(n *Num, from string) string {
	if n.Raw == "" {
		return w.FormatFrom(n, from)
	}
	p := w.MainPlan(n.CC)
	if p == nil {
		return n.Raw
	}
	var b strings.Builder
	for _, r := range n.Raw {
		if k, ok := alphaKept(r); ok {
			b.WriteRune(k)
		}
	}
	raw := b.String()
	nsn := n.NSN()
	if len(nsn) > 3 {
		if i := strings.Index(raw, nsn[:3]); i >= 0 {
			raw = raw[i:]
		}
	}
	caller := w.region(from)
	if n.CC == 1 {
		if w.NANPA[from] {
			return "1 " + raw
		}
	} else if caller != nil && n.CC == caller.CC {
		f := pick(caller.Formats, nsn)
		if f == nil {
			return raw
		}
		c := *f
		c.Pattern, c.Format = `(\d+)(.*)`, "$1$2"
		return c.apply(raw, National, "")
	}
	idd := ""
	if caller != nil {
		idd = caller.IntlPrefix
		if !full(singleIDD, idd) {
			idd = caller.PrefIntl
		}
	}
	raw, _ = SplitExtension(raw)
	body := raw + p.extension(n, International)
	if idd == "" {
		return withCode(n.CC, International, body)
	}
	return idd + " " + strconv.Itoa(n.CC) + " " + body
}

// FormatOriginal formats n the way it was typed.
func (w *World) FormatOriginal(n *Num, from string) string {
	p := w.MainPlan(n.CC)
	if n.Raw != "" && (p == nil || pick(p.Formats, n.NSN()) == nil) {
		return n.Raw
	}
	var out string
	switch n.Src {
	case SrcUnspecified:
		return w.Format(n, National)
	case SrcPlus:
		out = w.Format(n, International)
	case SrcIDD:
		out = w.FormatFrom(n, from)
	case SrcNoPlus:
		out = w.Format(n, International)[1:]
	default:
		out = w.Format(n, National)
		region := w.mainRegion(n.CC)
		rp := w.region(region)
		if rp == nil || rp.NatPrefix == "" {
			break
		}
		np := strings.ReplaceAll(rp.NatPrefix, "~", "")
		if w.typedWithPrefix(n.Raw, np, region) {
			break
		}
		f := pick(rp.Formats, n.NSN())
		if f == nil {
			break
		}
		i := strings.Index(f.NPRule, "$1")
		if i <= 0 || DigitsOnly(f.NPRule[:i]) == "" {
			break
		}
		c := *f
		c.NPRule = ""
		out = c.apply(n.NSN(), National, "") + rp.extension(n, National)
	}
	if out != "" && n.Raw != "" && DiallableOnly(out) != DiallableOnly(n.Raw) {
		return n.Raw
	}
	return out
}

func (w *World) typedWithPrefix(raw, np, region string) bool {
	d := DigitsOnly(raw)
	if !strings.HasPrefix(d, np) {
		return false
	}
	n, err := w.Parse(d[len(np):], region, false)
	return err == nil && w.Valid(n)
}

// MobileToken returns the token inserted before area codes of mobile numbers.
func MobileToken(cc int) string {
	if cc == 54 {
		return "9"
	}
	return ""
}

// NDCLen returns the length of the national destination code.
func (w *World) NDCLen(in *Num) int {
	n := *in
	n.Ext = ""
	groups := splitNonDigits(w.Format(&n, International))
	if len(groups) <= 3 {
		return 0
	}
	if w.TypeOf(&n) == TMobile && MobileToken(n.CC) != "" {
		return len(groups[2]) + len(groups[3])
	}
	return len(groups[2])
}

func splitNonDigits(s string) []string {
	out := []string{""}
	prevDigit := true
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			out[len(out)-1] += s[i : i+1]
			prevDigit = true
		} else {
			if prevDigit {
				out = append(out, "")
			}
			prevDigit = false
		}
	}
	return out
}

// Geographical reports whether numbers of type t and code cc are geographical.
func Geographical(t Type, cc int) bool {
	switch t {
	case TFixed, TFixedOrMobile:
		return true
	case TMobile:
		switch cc {
		case 52, 54, 55, 62, 86:
			return true
		}
	}
	return false
}

// AreaLen returns the length of the geographical area code.
func (w *World) AreaLen(n *Num) int {
	p := w.region(w.RegionOf(n))
	if p == nil {
		return 0
	}
	t := w.TypeOf(n)
	if p.NatPrefix == "" && !n.ILZ && n.CC != 52 {
		return 0
	}
	if t == TMobile && n.CC == 86 || !Geographical(t, n.CC) {
		return 0
	}
	return w.NDCLen(n)
}

// ---- comparison ----

// Match is a comparison grade (public enum order).
type Match int

// Grades.
const (
	NotANumber Match = iota
	NoMatch
	ShortMatch
	NSNMatch
	ExactMatch
)

// MatchNums compares two numbers.
func MatchNums(a, b *Num) Match {
	if a.Ext != "" && b.Ext != "" && a.Ext != b.Ext {
		return NoMatch
	}
	zeros := func(n *Num) int64 {
		if !n.ILZ {
			return -1 << 40
		}
		return int64(n.NLZ)
	}
	same := a.NN == b.NN && a.Ext == b.Ext && zeros(a) == zeros(b)
	sa, sb := strconv.FormatUint(a.NN, 10), strconv.FormatUint(b.NN, 10)
	suffix := strings.HasSuffix(sa, sb) || strings.HasSuffix(sb, sa)
	switch {
	case a.CC != 0 && b.CC != 0:
		if a.CC != b.CC {
			return NoMatch
		}
		if same {
			return ExactMatch
		}
	case same:
		return NSNMatch
	}
	if suffix {
		return ShortMatch
	}
	return NoMatch
}

// MatchNumText compares a number with a text.
func (w *World) MatchNumText(a *Num, text string) Match {
	b, err := w.Parse(text, "ZZ", false)
	if err == nil {
		return MatchNums(a, b)
	}
	if err != ErrCountryCode {
		return NotANumber
	}
	region := w.mainRegion(a.CC)
	if region == "ZZ" {
		if b, err = w.ParseAnywhere(text); err != nil {
			return NotANumber
		}
		return MatchNums(a, b)
	}
	if b, err = w.Parse(text, region, false); err != nil {
		return NotANumber
	}
	m := MatchNums(a, b)
	if m == ExactMatch {
		m = NSNMatch
	}
	return m
}

// MatchTexts compares two texts.
func (w *World) MatchTexts(s, t string) Match {
	a, err := w.Parse(s, "ZZ", false)
	if err == nil {
		return w.MatchNumText(a, t)
	}
	if err != ErrCountryCode {
		return NotANumber
	}
	b, err := w.Parse(t, "ZZ", false)
	if err == nil {
		return w.MatchNumText(b, s)
	}
	if err != ErrCountryCode {
		return NotANumber
	}
	if a, err = w.ParseAnywhere(s); err != nil {
		return NotANumber
	}
	if b, err = w.ParseAnywhere(t); err != nil {
		return NotANumber
	}
	return MatchNums(a, b)
}

// Grouped formats a national number by the rules of p.
func Grouped(p *Plan, nsn string, s Style) string { return p.nsnFormatted(nsn, s, "") }

// GroupedBy groups nsn by the first rule of p that matches all of it.
func (p *Plan) GroupedBy(nsn string) string { return p.nsnFormatted(nsn, National, "") }
