package model

import (
	"errors"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Src says where a parsed country calling code came from.
type Src int

// Country code sources (values of the public enum).
const (
	SrcUnspecified Src = 0
	SrcPlus        Src = 1
	SrcIDD         Src = 5
	SrcNoPlus      Src = 10
	SrcDefault     Src = 20
)

// Num is a phone number.
type Num struct {
	CC      int
	NN      uint64
	Ext     string
	ILZ     bool
	NLZ     int32 // 1 unless stated otherwise
	Raw     string
	Src     Src
	Carrier string
}

// Parse errors.
var (
	ErrNotANumber  = errors.New("not a number")
	ErrTooLong     = errors.New("too long")
	ErrCountryCode = errors.New("invalid country code")
	ErrShortIDD    = errors.New("too short after IDD")
	ErrShortNSN    = errors.New("too short nsn")
)

// Type of a number (public enum order).
type Type int

// Number types.
const (
	TFixed Type = iota
	TMobile
	TFixedOrMobile
	TTollFree
	TPremium
	TShared
	TVoip
	TPersonal
	TPager
	TUan
	TVoicemail
	TUnknown
)

// Result of a length check (public enum order).
type Result int

// Length check results.
const (
	Possible Result = iota
	LocalOnly
	BadCountry
	TooShort
	BadLength
	TooLong
)

// Format styles (public enum order).
type Style int

// Format styles.
const (
	E164 Style = iota
	International
	National
	RFC3966
)

// ---- character classes and grammar ----

const (
	punct    = "-x\u2010-\u2015\u2212\u30FC\uFF0D-\uFF0F \u00A0\u00AD\u200B\u2060\u3000()\uFF08\uFF09\uFF3B\uFF3D.\\[\\]/~\u2053\u223C\uFF5E"
	nd       = `\p{Nd}`
	pluses   = "+\uFF0B"
	letters  = "A-Za-z"
	extDig20 = "(" + nd + "{1,20})"
	extDig15 = "(" + nd + "{1,15})"
	extDig9  = "(" + nd + "{1,9})"
	extDig6  = "(" + nd + "{1,6})"
	extSep   = "[ \u00A0\\t,]*"
	extAfter = "[:\\.\uFF0E]?[ \u00A0\\t,-]*"
	extWords = "(?:e?xt(?:ensi(?:o\u0301?|\u00F3))?n?|\uFF45?\uFF58\uFF54\uFF4E?|\u0434\u043E\u0431|anexo)"
	extMarks = "(?:[x\uFF58#\uFF03~\uFF5E]|int|\uFF49\uFF4E\uFF54)"
)

var (
	extForText = ";ext=" + extDig20 +
		"|" + extSep + extWords + extAfter + extDig20 + "#?" +
		"|" + extSep + extMarks + extAfter + extDig9 + "#?" +
		"|" + "[- ]+" + extDig6 + "#"
	extForParse = extForText +
		"|" + "[ \u00A0\\t]*(?:,{2}|;)" + extAfter + extDig15 + "#?" +
		"|" + "[ \u00A0\\t]*(?:,)+" + extAfter + extDig9 + "#?"
	viableRE = `(?i)\A(?:` + nd + "{2}|[" + pluses + "]*(?:[" + punct + "*]*" + nd + "){3,}[" + punct + "*" + letters + nd + "]*(?:" + extForParse + ")?)" + `\z`
	extRE    = `(?i)(?:` + extForParse + `)\z`

	ctxGlobalRE = `\A\+(?:` + nd + `|[\-\.\(\)]?)*` + nd + `(?:` + nd + `|[\-\.\(\)]?)*\z`
	alnum       = letters + nd
	ctxDomainRE = `\A(?:[` + alnum + `]+(?:(?:\-)*[` + alnum + `])*\.)*[` + letters + `]+(?:(?:\-)*[` + alnum + `])*\.?\z`
)

// DigitVal returns the decimal value of a Unicode decimal digit, or -1.
func DigitVal(r rune) int {
	if r >= '0' && r <= '9' {
		return int(r - '0')
	}
	if r < 0x80 || !unicode.Is(unicode.Nd, r) {
		return -1
	}
	// Decimal digits come in runs of ten consecutive code points starting with
	// zero; a run may directly follow another one.
	n := 0
	for unicode.Is(unicode.Nd, r-rune(n)-1) {
		n++
	}
	return n % 10
}

// DigitsOnly keeps the decimal digits of s, as ASCII.
func DigitsOnly(s string) string {
	var b strings.Builder
	for _, r := range s {
		if v := DigitVal(r); v >= 0 {
			b.WriteByte(byte('0' + v))
		}
	}
	return b.String()
}

// digitsKeep converts digits to ASCII and keeps everything else.
func digitsKeep(s string) string {
	var b strings.Builder
	for _, r := range s {
		if v := DigitVal(r); v >= 0 {
			b.WriteByte(byte('0' + v))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// keypad returns the E.161 digit of an ASCII letter or digit (after Unicode
// upper-casing), or 0.
func keypad(r rune) byte {
	r = unicode.ToUpper(r)
	switch {
	case r >= '0' && r <= '9':
		return byte(r)
	case r >= 'A' && r <= 'Z':
		return "22233344455566677778889999"[r-'A']
	}
	return 0
}

// ConvertAlpha turns letters into keypad digits and keeps the rest.
func ConvertAlpha(s string) string {
	var b strings.Builder
	for _, r := range s {
		if k := keypad(r); k != 0 {
			b.WriteByte(k)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// DiallableOnly keeps ASCII digits, plus, star and hash.
func DiallableOnly(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' || r == '+' || r == '*' || r == '#' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// hasThreeLetters reports whether s (a single line) has three ASCII letters.
func hasThreeLetters(s string) bool {
	if strings.ContainsRune(s, '\n') {
		return false
	}
	n := 0
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			n++
		}
	}
	return n >= 3
}

func normalize(s string) string {
	if !hasThreeLetters(s) {
		return DigitsOnly(s)
	}
	// vanity number: only ASCII digits and letters count
	var b strings.Builder
	for _, r := range s {
		if k := keypad(r); k != 0 {
			b.WriteByte(k)
		}
	}
	return b.String()
}

// Viable reports whether s could be a phone number at all.
func Viable(s string) bool { return len(s) >= 2 && re(viableRE).MatchString(s) }

// SplitExtension splits off a trailing extension.
func SplitExtension(s string) (rest, ext string) {
	m := re(extRE).FindStringSubmatchIndex(s)
	if m == nil || !Viable(s[:m[0]]) {
		return s, ""
	}
	for g := 2; g < len(m); g += 2 {
		if m[g] >= 0 && m[g] < m[g+1] {
			return s[:m[0]], DigitsOnly(s[m[g]:m[g+1]])
		}
	}
	return s, ""
}

// IsAlpha reports whether s is a vanity number.
func IsAlpha(s string) bool {
	if !Viable(s) {
		return false
	}
	rest, _ := SplitExtension(s)
	return hasThreeLetters(rest)
}

func isPlus(r rune) bool { return r == '+' || r == '\uFF0B' }

// ExtractPossible cuts a possible number out of s.
func ExtractPossible(s string) string {
	i := strings.IndexFunc(s, func(r rune) bool { return isPlus(r) || unicode.Is(unicode.Nd, r) })
	if i < 0 {
		return ""
	}
	s = trimUnwantedEnd(s[i:])
	if loc := re(`[\\/] *x`).FindStringIndex(s); loc != nil {
		s = s[:loc[0]]
	}
	return s
}

// trimUnwantedEnd removes trailing characters that are no number, letter or '#'.
func trimUnwantedEnd(s string) string {
	return strings.TrimRightFunc(s, func(r rune) bool {
		return !(unicode.IsNumber(r) || unicode.IsLetter(r) || r == '#')
	})
}

// ---- numbers ----

const maxNSN = 17

// NSN returns the national significant number.
func (n *Num) NSN() string {
	z := 0
	if n.ILZ && n.NLZ > 0 {
		z = int(min(n.NLZ, maxNSN))
	}
	return strings.Repeat("0", z) + strconv.FormatUint(n.NN, 10)
}

// ---- numbering plan lookups ----

// Valid region code?
func (w *World) region(r string) *Plan {
	if r == "" || !w.Supported[r] {
		return nil
	}
	return w.Regions[r]
}

func (w *World) mainRegion(cc int) string {
	if rs := w.CC2R[cc]; len(rs) > 0 {
		return rs[0]
	}
	return "ZZ"
}

// planFor returns the plan of region r, where "001" means calling code cc.
func (w *World) planFor(cc int, r string) *Plan {
	if r == "001" {
		if _, ok := w.CC2R[cc]; !ok {
			return nil
		}
		return w.NonGeo[cc]
	}
	return w.region(r)
}

// MainPlan returns the plan responsible for formatting numbers of cc, or nil.
func (w *World) MainPlan(cc int) *Plan {
	if _, ok := w.CC2R[cc]; !ok {
		return nil
	}
	return w.planFor(cc, w.mainRegion(cc))
}

func hasLen(l []int32, n int) bool {
	for _, x := range l {
		if int(x) == n {
			return true
		}
	}
	return false
}

// matches reports whether nsn is a number described by d.
func (d *Desc) matches(nsn string) bool {
	if d == nil {
		return false
	}
	if len(d.Lengths) > 0 && !hasLen(d.Lengths, len(nsn)) {
		return false
	}
	return full(d.Pattern, nsn)
}

var typeOrder = []struct {
	k Kind
	t Type
}{
	{PremiumRate, TPremium}, {TollFree, TTollFree}, {SharedCost, TShared}, {Voip, TVoip}, {PersonalNumber, TPersonal},
	{Pager, TPager}, {Uan, TUan}, {Voicemail, TVoicemail},
}

// typeOf classifies nsn under plan p.
func (p *Plan) typeOf(nsn string) Type {
	if !p.D[General].matches(nsn) {
		return TUnknown
	}
	for _, e := range typeOrder {
		if p.D[e.k].matches(nsn) {
			return e.t
		}
	}
	fixed := p.D[FixedLine].matches(nsn)
	mobile := !p.SameMobFixed && p.D[Mobile].matches(nsn)
	switch {
	case fixed && (p.SameMobFixed || mobile):
		return TFixedOrMobile
	case fixed:
		return TFixed
	case mobile:
		return TMobile
	}
	return TUnknown
}

// RegionOf returns the region n belongs to, or "".
func (w *World) RegionOf(n *Num) string {
	rs := w.CC2R[n.CC]
	switch len(rs) {
	case 0:
		return ""
	case 1:
		return rs[0]
	}
	nsn := n.NSN()
	for _, r := range rs {
		p := w.region(r)
		if p.LeadingDigits != "" {
			if at(p.LeadingDigits, nsn) >= 0 {
				return r
			}
		} else if p.typeOf(nsn) != TUnknown {
			return r
		}
	}
	return ""
}

// TypeOf returns the type of n.
func (w *World) TypeOf(n *Num) Type {
	p := w.planFor(n.CC, w.RegionOf(n))
	if p == nil {
		return TUnknown
	}
	return p.typeOf(n.NSN())
}

// ValidFor reports whether n is valid for region r.
func (w *World) ValidFor(n *Num, r string) bool {
	p := w.planFor(n.CC, r)
	if p == nil || (r != "001" && p.CC != n.CC) {
		return false
	}
	return p.typeOf(n.NSN()) != TUnknown
}

// Valid reports whether n is valid.
func (w *World) Valid(n *Num) bool { return w.ValidFor(n, w.RegionOf(n)) }

// CanDialIntl reports whether n can be dialled from abroad.
func (w *World) CanDialIntl(n *Num) bool {
	p := w.region(w.RegionOf(n))
	return p == nil || !p.D[NoIntl].matches(n.NSN())
}

func (p *Plan) kindFor(t Type) Kind {
	switch t {
	case TFixed, TFixedOrMobile:
		return FixedLine
	case TMobile:
		return Mobile
	case TTollFree:
		return TollFree
	case TPremium:
		return PremiumRate
	case TShared:
		return SharedCost
	case TVoip:
		return Voip
	case TPersonal:
		return PersonalNumber
	case TPager:
		return Pager
	case TUan:
		return Uan
	case TVoicemail:
		return Voicemail
	}
	return General
}

// absent: no numbers of this kind exist.
func (d *Desc) absent() bool { return d == nil || len(d.Lengths) == 1 && d.Lengths[0] == -1 }

// lengths returns the possible and local-only lengths of numbers of type t;
// none at all when there are no such numbers.
func (p *Plan) lengths(t Type) (nat, local map[int]bool) {
	nat, local = map[int]bool{}, map[int]bool{}
	kinds := []Kind{p.kindFor(t)}
	if t == TFixedOrMobile {
		kinds = []Kind{FixedLine, Mobile}
	}
	for _, k := range kinds {
		d := p.D[k]
		if d.absent() {
			continue
		}
		l := d.Lengths
		if len(l) == 0 {
			l = p.D[General].Lengths
		}
		for _, x := range l {
			nat[int(x)] = true
		}
		for _, x := range d.Local {
			local[int(x)] = true
		}
	}
	return
}

// lengthCheck classifies a national number length for type t.
func (p *Plan) lengthCheck(length int, t Type) Result {
	nat, local := p.lengths(t)
	if len(nat) == 0 {
		return BadLength
	}
	if local[length] {
		return LocalOnly
	}
	if nat[length] {
		return Possible
	}
	var all []int
	for l := range nat {
		all = append(all, l)
	}
	sort.Ints(all)
	switch {
	case length < all[0]:
		return TooShort
	case length > all[len(all)-1]:
		return TooLong
	}
	return BadLength
}

// PossibleReason classifies the length of n.
func (w *World) PossibleReason(n *Num) Result {
	p := w.MainPlan(n.CC)
	if p == nil {
		return BadCountry
	}
	l := len(n.NSN())
	if p.D[General].Pattern == "" {
		switch {
		case l < 2:
			return TooShort
		case l > maxNSN:
			return TooLong
		}
		return Possible
	}
	return p.lengthCheck(l, TUnknown)
}

// PossibleTypeReason classifies the length of n among numbers of type t.
func (w *World) PossibleTypeReason(n *Num, t Type) Result {
	p := w.MainPlan(n.CC)
	if p == nil {
		return BadCountry
	}
	return p.lengthCheck(len(n.NSN()), t)
}

// Truncate returns the national number cut to the longest valid prefix.
func (w *World) Truncate(n *Num) (uint64, bool) {
	if w.Valid(n) {
		return n.NN, true
	}
	c := *n
	for {
		c.NN /= 10
		if c.NN == 0 || w.PossibleReason(&c) == TooShort {
			return n.NN, false
		}
		if w.Valid(&c) {
			return c.NN, true
		}
	}
}

// SupportedTypes lists the types plan p has data for.
func (p *Plan) SupportedTypes() map[Type]bool {
	out := map[Type]bool{}
	for t := TFixed; t < TUnknown; t++ {
		if t == TFixedOrMobile {
			continue
		}
		d := p.D[p.kindFor(t)]
		if d != nil && (d.Example != "" || !d.absent() || d.HasPattern) {
			out[t] = true
		}
	}
	return out
}

// ---- parsing ----

// countryPrefix extracts a calling code from the start of digits.
func (w *World) countryPrefix(digits string) (int, string) {
	if digits == "" || digits[0] == '0' {
		return 0, digits
	}
	for i := 1; i <= 3 && i <= len(digits); i++ {
		cc, err := strconv.Atoi(digits[:i])
		if err == nil {
			if _, ok := w.CC2R[cc]; ok {
				return cc, digits[i:]
			}
		}
	}
	return 0, digits
}

// stripNational removes a national prefix and carrier code.
func (p *Plan) stripNational(nsn string) (rest, carrier string, stripped bool) {
	if nsn == "" || p.NPForParsing == "" {
		return nsn, "", false
	}
	m := re(`\A(?:` + p.NPForParsing + `)`).FindStringSubmatchIndex(nsn)
	if m == nil {
		return nsn, "", false
	}
	groups := len(m)/2 - 1
	grp := func(i int) (string, bool) {
		if i > groups || m[2*i] < 0 {
			return "", false
		}
		return nsn[m[2*i]:m[2*i+1]], true
	}
	general := p.D[General].Pattern
	lastMatched := m[2*groups] >= 0
	if p.NPTransform != "" && lastMatched {
		rest = Expand(p.NPTransform, func(i int) (string, bool) { s, ok := grp(i); return s, ok || i <= groups }) + nsn[m[1]:]
		if groups > 1 {
			carrier, _ = grp(1)
		}
	} else {
		rest = nsn[m[1]:]
		carrier, _ = grp(1)
	}
	if full(general, nsn) && !full(general, rest) {
		return nsn, "", false
	}
	return rest, carrier, true
}

// WithoutPrefix is what the plan's prefix rule leaves of national digits.
func (p *Plan) WithoutPrefix(nsn string) string {
	rest, _, _ := p.stripNational(nsn)
	return rest
}

// Expand substitutes $N tokens in a replacement template: $ followed by a digit
// names a group; a following digit belongs to the name only if that group exists.
func Expand(tmpl string, group func(i int) (val string, exists bool)) string {
	var b strings.Builder
	for i := 0; i < len(tmpl); i++ {
		c := tmpl[i]
		if c == '$' && i+1 < len(tmpl) && tmpl[i+1] >= '0' && tmpl[i+1] <= '9' {
			i++
			v, _ := group(int(tmpl[i] - '0'))
			b.WriteString(v)
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// extractCC finds the country calling code of a number; found is false when the
// number has none (then the source is SrcDefault).
func (w *World) extractCC(number string, def *Plan) (cc int, rest string, src Src, err error) {
	if number == "" {
		return 0, "", SrcDefault, nil
	}
	var digits string
	stripped := strings.TrimLeftFunc(number, isPlus)
	if stripped != number {
		digits, src = normalize(stripped), SrcPlus
	} else {
		digits, src = normalize(number), SrcDefault
		idd := "NonMatch"
		if def != nil {
			idd = def.IntlPrefix
		}
		if e := at(idd, digits); e >= 0 {
			if after := digits[e:]; !strings.HasPrefix(after, "0") {
				digits, src = after, SrcIDD
			}
		}
	}
	if src != SrcDefault {
		if len(digits) <= 2 {
			return 0, "", src, ErrShortIDD
		}
		cc, rest = w.countryPrefix(digits)
		if cc == 0 {
			return 0, "", src, ErrCountryCode
		}
		return cc, rest, src, nil
	}
	if def != nil {
		ccs := strconv.Itoa(def.CC)
		if strings.HasPrefix(digits, ccs) {
			nat, _, _ := def.stripNational(digits[len(ccs):])
			g := def.D[General].Pattern
			if (!full(g, digits) && full(g, nat)) || def.lengthCheck(len(digits), TUnknown) == TooLong {
				return def.CC, nat, SrcNoPlus, nil
			}
		}
	}
	return 0, "", SrcDefault, nil
}

// national cuts the interesting part out of the input, resolving RFC 3966
// parameters.
func nationalPart(in string) (string, bool) {
	const ctxTag = ";phone-context="
	var out string
	i := strings.Index(in, ctxTag)
	if i >= 0 {
		ctx := in[i+len(ctxTag):]
		if j := strings.IndexByte(ctx, ';'); j >= 0 {
			ctx = ctx[:j]
		}
		if ctx == "" || !(re(ctxGlobalRE).MatchString(ctx) || re(ctxDomainRE).MatchString(ctx)) {
			return "", false
		}
		if i > 0 {
			if ctx[0] == '+' {
				out = ctx
			}
			head := in[:i]
			if j := strings.Index(head+";phone", "tel:"); j >= 0 && j < i {
				// the tag must begin before the parameter
				head = in[min(j+4, i):i]
			}
			out += head
		}
	}
	if i <= 0 {
		out = ExtractPossible(in)
	}
	if j := strings.Index(out, ";isub="); j > 0 {
		out = out[:j]
	}
	return out, true
}

// Parse parses in as dialled from region; keep also fills in raw input data.
func (w *World) Parse(in, region string, keep bool) (*Num, error) {
	return w.parse(in, region, keep, true)
}

// ParseAnywhere parses in with no region at all and without requiring one.
func (w *World) ParseAnywhere(in string) (*Num, error) { return w.parse(in, "", false, false) }

func (w *World) parse(in, region string, keep, needRegion bool) (*Num, error) {
	if in == "" {
		return nil, ErrNotANumber
	}
	if len(in) > 250 {
		return nil, ErrTooLong
	}
	body, ok := nationalPart(in)
	if !ok || !Viable(body) {
		return nil, ErrNotANumber
	}
	plan := w.region(region)
	if needRegion && plan == nil && !strings.ContainsFunc(body, isPlus) {
		return nil, ErrCountryCode
	}
	n := &Num{NLZ: 1}
	if keep {
		n.Raw = in
	}
	body, n.Ext = SplitExtension(body)
	cc, nsn, src, err := w.extractCC(body, plan)
	if err == ErrCountryCode {
		// a plus followed by an unknown code: try again without the plus
		if i := strings.IndexFunc(body, isPlus); i >= 0 {
			cc, nsn, src, err = w.extractCC(strings.TrimLeftFunc(body[i:], isPlus), plan)
			if err == nil && cc == 0 {
				err = ErrCountryCode
			}
		}
	}
	if err != nil {
		return nil, err
	}
	if keep {
		n.Src = src
	}
	if cc != 0 {
		n.CC = cc
		if r := w.mainRegion(cc); r != region {
			plan = w.planFor(cc, r)
		}
	} else {
		nsn = normalize(body)
		if plan != nil {
			n.CC = plan.CC
		}
		if region == "" {
			n.Src = SrcUnspecified
		}
	}
	if len(nsn) < 2 {
		return nil, ErrShortNSN
	}
	if plan != nil {
		rest, carrier, _ := plan.stripNational(nsn)
		switch plan.lengthCheck(len(rest), TUnknown) {
		case TooShort, LocalOnly, BadLength:
		default:
			nsn = rest
			if keep {
				n.Carrier = carrier
			}
		}
	}
	if len(nsn) < 2 {
		return nil, ErrShortNSN
	}
	if len(nsn) > maxNSN {
		return nil, ErrTooLong
	}
	n.NN, _ = strconv.ParseUint(nsn, 10, 64)
	if nsn[0] == '0' {
		n.ILZ = true
		z := len(nsn) - len(strings.TrimLeft(nsn, "0"))
		if z == len(nsn) {
			z--
		}
		n.NLZ = int32(z)
	}
	return n, nil
}

// Ambiguous reports whether the plan's own rules would read the complete national
// number of n as a national prefix followed by another complete number: such a
// number cannot be written in international form without being read as the other.
func (w *World) Ambiguous(n *Num) bool {
	p := w.MainPlan(n.CC)
	if p == nil {
		return false
	}
	nsn := n.NSN()
	rest, _, stripped := p.stripNational(nsn)
	return stripped && rest != nsn && full(p.D[General].Pattern, rest)
}

// MatchAt returns the end of the match of pattern at the start of s, or -1.
func MatchAt(pattern, s string) int { return at(pattern, s) }

// MatchFull reports whether pattern matches all of s.
func MatchFull(pattern, s string) bool { return full(pattern, s) }

// Complete reports whether nsn has the form and length of a complete number of p.
func (p *Plan) Complete(nsn string) bool {
	return full(p.D[General].Pattern, nsn) && p.lengthCheck(len(nsn), TUnknown) == Possible
}

// CountDigits counts the decimal digits in s.
func CountDigits(s string) int { return len(DigitsOnly(s)) }
