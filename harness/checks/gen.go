package checks

import (
	"regexp/syntax"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"verifharness/model"
	"verifharness/pbt"
)

var w0 = sync.OnceValue(model.Embedded)

// ---- strings from regular expressions ----

var synCache sync.Map

func parseRE(p string) *syntax.Regexp {
	if v, ok := synCache.Load(p); ok {
		return v.(*syntax.Regexp)
	}
	r, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		r = &syntax.Regexp{Op: syntax.OpEmptyMatch}
	}
	r = r.Simplify()
	synCache.Store(p, r)
	return r
}

// fromRE draws a string matching pattern p.
func fromRE(t *pbt.T, p string) string {
	var b strings.Builder
	genRE(t, parseRE(p), &b)
	return b.String()
}

func genRE(t *pbt.T, r *syntax.Regexp, b *strings.Builder) {
	if b.Len() > 400 {
		return
	}
	switch r.Op {
	case syntax.OpLiteral:
		for _, c := range r.Rune {
			b.WriteRune(c)
		}
	case syntax.OpCharClass:
		n := 0
		for i := 0; i < len(r.Rune); i += 2 {
			n += int(r.Rune[i+1]-r.Rune[i]) + 1
		}
		k := t.N(min(n, 1000))
		for i := 0; i < len(r.Rune); i += 2 {
			sz := int(r.Rune[i+1]-r.Rune[i]) + 1
			if k < sz {
				b.WriteRune(r.Rune[i] + rune(k))
				return
			}
			k -= sz
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteByte(byte('0' + t.N(10)))
	case syntax.OpCapture, syntax.OpConcat:
		for _, s := range r.Sub {
			genRE(t, s, b)
		}
	case syntax.OpAlternate:
		genRE(t, r.Sub[t.N(len(r.Sub))], b)
	case syntax.OpQuest:
		if t.Bool() {
			genRE(t, r.Sub[0], b)
		}
	case syntax.OpStar, syntax.OpPlus:
		n := t.Weighted(4, 3, 2, 1)
		if r.Op == syntax.OpPlus {
			n++
		}
		for ; n > 0; n-- {
			genRE(t, r.Sub[0], b)
		}
	case syntax.OpRepeat:
		hi := r.Max
		if hi < 0 {
			hi = r.Min + 3
		}
		for n := t.Range(r.Min, hi); n > 0; n-- {
			genRE(t, r.Sub[0], b)
		}
	}
}

// ---- regions and numbers ----

var hotRegions = []string{"US", "GB", "IT", "AR", "BR", "MX", "DE", "FR", "CN", "JP", "RU", "KZ", "CA", "BS", "JM", "DO", "PR", "IM", "JE", "GG",
	"AU", "CX", "NZ", "SG", "ID", "CL", "UZ", "CO", "CR", "IN", "KR", "HK", "HU", "LT", "SM", "VA", "CI", "GA", "UY", "PL", "CH", "AT", "FI", "AX",
	"NO", "SJ", "IL", "MN", "AE", "TR", "ZA", "KE", "PE", "NI", "BY", "SE", "GF", "RE", "YT", "MA", "EH", "CU", "BO", "PY", "VE", "AD", "MC", "CW", "BQ"}

var oddRegions = []string{"ZZ", "", "001", "us", "XX", "GBR", "U", "zz", "419", "US ", "\x00", "é", "AN", "EU", "99"}

// supported draws a supported region.
func supported(t *pbt.T, w *model.World) string {
	related := func(r string) string {
		// a region with the same code
		if p := w.Regions[r]; p != nil {
			if s := pbt.Pick(t.Src, w.CC2R[p.CC]); w.Supported[s] {
				return s
			}
		}
		return r
	}
	r := t.Recall("region", related, func() string {
		if t.Chance(2, 5) {
			if r := pbt.Pick(t.Src, hotRegions); w.Supported[r] {
				return r
			}
		}
		return pbt.Pick(t.Src, w.RegionIDs)
	})
	if !w.Supported[r] {
		// recalled from other plans
		return pbt.Pick(t.Src, w.RegionIDs)
	}
	return r
}

// anyRegion draws a region string of any kind.
func anyRegion(t *pbt.T, w *model.World) string {
	if t.Chance(1, 6) {
		return pbt.Pick(t.Src, oddRegions)
	}
	return supported(t, w)
}

// anyPlan draws a numbering plan, including global ones.
func anyPlan(t *pbt.T, w *model.World) *model.Plan {
	if len(w.NGCodes) > 0 && t.Chance(1, 12) {
		if p := w.NonGeo[pbt.Pick(t.Src, w.NGCodes)]; p != nil {
			return p
		}
	}
	return w.Regions[supported(t, w)]
}

func digits(t *pbt.T, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + t.N(10))
	}
	return string(b)
}

var numberKinds = []model.Kind{model.FixedLine, model.Mobile, model.TollFree, model.PremiumRate, model.SharedCost, model.PersonalNumber,
	model.Voip, model.Pager, model.Uan, model.Voicemail, model.NoIntl}

// fromDesc draws a number described by d, mostly.
func fromDesc(t *pbt.T, d *model.Desc) string {
	s := ""
	for try := 0; try < 6; try++ {
		s = fromRE(t, d.Pattern)
		if len(d.Lengths) == 0 {
			return s
		}
		for _, l := range d.Lengths {
			if int(l) == len(s) {
				return s
			}
		}
	}
	return s
}

func hasData(d *model.Desc) bool {
	return d != nil && d.Pattern != "" && !(len(d.Lengths) == 1 && d.Lengths[0] == -1)
}

// validNSN draws a national number that should be valid under p.
func validNSN(t *pbt.T, p *model.Plan) string {
	return t.Recall("nsn", varyNSN(t), func() string { return newValidNSN(t, p) })
}

// varyNSN changes a national number slightly: a digit, the end, leading zeros.
func varyNSN(t *pbt.T) func(string) string {
	return func(s string) string {
		switch {
		case s == "" || t.Chance(1, 4):
			return edit(t, s)
		case t.Chance(1, 4):
			return "0" + s
		case t.Chance(1, 4):
			return strings.TrimLeft(s, "0") + digits(t, 1)
		}
		i := len(s) - 1 - t.N(min(4, len(s)))
		return s[:i] + digits(t, len(s)-i)
	}
}

func newValidNSN(t *pbt.T, p *model.Plan) string {
	var ks []model.Kind
	for _, k := range numberKinds {
		if hasData(p.D[k]) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return digits(t, 8)
	}
	return fromDesc(t, p.D[pbt.Pick(t.Src, ks)])
}

// ruleNSN draws a national number that one of p's formatting rules covers.
func ruleNSN(t *pbt.T, p *model.Plan) string {
	rules := p.Formats
	if len(p.IntlFormats) > 0 && t.Bool() {
		rules = p.IntlFormats
	}
	if len(rules) == 0 {
		return validNSN(t, p)
	}
	f := pbt.Pick(t.Src, rules)
	s := fromRE(t, f.Pattern)
	if k := len(f.Leading); k > 0 {
		l := fromRE(t, f.Leading[k-1])
		if len(l) <= len(s) {
			s = l + s[len(l):]
		} else {
			s = l
		}
	}
	return s
}

// anyNSN draws a national number of any quality under p.
func anyNSN(t *pbt.T, p *model.Plan) string {
	return t.Recall("nsn", varyNSN(t), func() string { return newAnyNSN(t, p) })
}

func newAnyNSN(t *pbt.T, p *model.Plan) string {
	switch t.Weighted(40, 15, 15, 10, 8, 4, 4, 4) {
	case 0:
		return validNSN(t, p)
	case 1:
		return ruleNSN(t, p)
	case 2: // nearly valid: one edit
		return edit(t, validNSN(t, p))
	case 3: // possible length, random digits
		if g := p.D[model.General]; g != nil && len(g.Lengths) > 0 {
			n := int(pbt.Pick(t.Src, g.Lengths))
			if len(g.Local) > 0 && t.Chance(1, 3) {
				n = int(pbt.Pick(t.Src, g.Local))
			}
			return digits(t, max(n, 1))
		}
		return digits(t, 8)
	case 4: // local part of a valid number
		s := validNSN(t, p)
		if len(s) > 3 {
			s = s[t.N(len(s)-2):]
		}
		return s
	case 5: // leading zeros
		return strings.Repeat("0", 1+t.N(6)) + validNSN(t, p)
	case 6: // too long
		s := validNSN(t, p)
		return s + digits(t, 1+t.N(max(1, 19-len(s))))
	}
	return digits(t, 1+t.N(18))
}

// edit changes, adds or removes a digit.
func edit(t *pbt.T, s string) string {
	if s == "" {
		return digits(t, 1)
	}
	i := t.N(len(s))
	switch t.N(4) {
	case 0:
		return s[:i] + digits(t, 1) + s[i+1:]
	case 1:
		return s[:i] + s[i+1:]
	case 2:
		return s[:i] + digits(t, 1) + s[i:]
	}
	return s[:len(s)-1]
}

// numOf builds the number message for a national number text, the way parsing
// stores it.
func numOf(cc int, nsn string) *model.Num {
	n := &model.Num{CC: cc, NLZ: 1}
	if len(nsn) > 17 {
		nsn = nsn[:17]
	}
	n.NN, _ = strconv.ParseUint(nsn, 10, 64)
	if len(nsn) > 1 && nsn[0] == '0' {
		n.ILZ = true
		z := len(nsn) - len(strings.TrimLeft(nsn, "0"))
		if z == len(nsn) {
			z--
		}
		n.NLZ = int32(z)
	}
	return n
}

// validNum draws a number valid according to the model (retrying), with its plan.
func validNum(t *pbt.T, w *model.World) (*model.Num, *model.Plan) {
	var n *model.Num
	var p *model.Plan
	for try := 0; try < 8; try++ {
		p = anyPlan(t, w)
		n = numOf(p.CC, validNSN(t, p))
		if w.Valid(n) {
			break
		}
	}
	return n, p
}

var extensions = []string{"1", "12", "123", "0", "007", "99999", "1234567", "123456789", "1234567890", "123456789012345", "12345678901234567890"}

// numMsg draws a number as parsing could have returned it, with a random extension.
func numMsg(t *pbt.T, w *model.World) *model.Num {
	p := anyPlan(t, w)
	n := numOf(p.CC, anyNSN(t, p))
	if t.Chance(1, 5) {
		n.Ext = ext(t)
	}
	return n
}

func ext(t *pbt.T) string {
	if t.Bool() {
		return digits(t, 1+t.N(7))
	}
	return pbt.Pick(t.Src, extensions)
}

var srcs = []model.Src{model.SrcUnspecified, model.SrcPlus, model.SrcIDD, model.SrcNoPlus, model.SrcDefault}

// wildNum draws any message at all, parsed-looking or not.
func wildNum(t *pbt.T, w *model.World) *model.Num {
	n := numMsg(t, w)
	if t.Chance(1, 3) {
		switch t.N(8) {
		case 0:
			n.CC = pbt.Pick(t.Src, []int{0, 1, -1, 999, 1000, 210, 1 << 30, -(1 << 31), 2147483647, 7, 39, 44, 54, 55, 800, 979})
		case 1:
			n.NN = pbt.Pick(t.Src, []uint64{0, 1, 9, 10, 99, 1<<64 - 1, 1 << 63, 99999999999999999, 100000000000000000})
		case 2:
			n.ILZ = !n.ILZ
		case 3:
			n.NLZ = pbt.Pick(t.Src, []int32{0, -1, 1, 2, 3, 16, 17, 18, 100, -(1 << 31), 1<<31 - 1})
			n.ILZ = t.Chance(2, 3)
		case 4:
			n.NN = t.U64()
		case 5:
			n.Ext = text(t, 12)
		case 6:
			n.CC = pbt.Pick(t.Src, w.Codes)
		case 7:
			n.CC = t.N(1200)
		}
	}
	if t.Chance(1, 4) {
		n.Src = pbt.Pick(t.Src, srcs)
		if t.Chance(1, 10) {
			n.Src = model.Src(t.N(30))
		}
	}
	if t.Chance(1, 4) {
		if t.Bool() {
			n.Raw = n.NSN()
		} else {
			n.Raw, _ = numText(t, w, "")
		}
	}
	if t.Chance(1, 6) {
		n.Carrier = digits(t, t.N(6))
	}
	return n
}

// ---- texts ----

var alphabet = []rune("0123456789+-()./ xX#*;:,~ABCDEFGXYZabcdefgxyz=%$@&!?_\\\"'\t\n\r[]{}|<>" +
	"\uFF0B\u2010\u2011\u2012\u2013\u2014\u2015\u2212\u30FC\uFF0D\uFF0E\uFF0F\u00A0\u00AD\u200B\u2060\u3000\uFF08\uFF09\uFF3B\uFF3D\u2053\u223C\uFF5E" +
	"\uFF03\uFF58\uFF45\uFF54\uFF4E\uFF49\u00F3\u0301\u0434\u043E\u0431" + "\uFF10\uFF19\u0660\u0669\u06F1\u0967\u09E7\U0001D7CE\U0001D7FF\u00B2\u2160\u4E00\u0131\u017F\u212A\u00E9\u0391\u0410\u20AC\u00A3\u2028\uFEFF\uFFFD\x00\x7f")

// text draws an arbitrary short text.
func text(t *pbt.T, maxLen int) string {
	var b strings.Builder
	for n := t.N(maxLen + 1); n > 0; n-- {
		b.WriteString(char(t))
	}
	return b.String()
}

func char(t *pbt.T) string {
	switch t.Weighted(40, 40, 10, 4, 2, 3) {
	case 5:
		return string(pbt.Pick(t.Src, edgeRunes()))
	case 0:
		return string(rune('0' + t.N(10)))
	case 1:
		return string(pbt.Pick(t.Src, alphabet))
	case 2:
		return string(rune(0x20 + t.N(0x5f)))
	case 3:
		r := rune(t.N(0x30000))
		if !utf8.ValidRune(r) {
			r = 'x'
		}
		return string(r)
	}
	return string([]byte{byte(t.N(256))})
}

// edgeRunes are the first and last runes of the Unicode ranges that number
// texts are classified by, and the runes just outside of them.
var edgeRunes = sync.OnceValue(func() []rune {
	seen := map[rune]bool{}
	var out []rune
	add := func(r rune) {
		if utf8.ValidRune(r) && !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	for _, tab := range []*unicode.RangeTable{unicode.Nd, unicode.Nl, unicode.No, unicode.Latin, unicode.Sc, unicode.Z, unicode.Pd, unicode.Mn, unicode.Ps, unicode.Pe, unicode.Sm} {
		for _, rg := range tab.R16 {
			for d := rune(-1); d <= 1; d++ {
				add(rune(rg.Lo) + d)
				add(rune(rg.Hi) + d)
			}
		}
		for _, rg := range tab.R32 {
			for d := rune(-1); d <= 1; d++ {
				add(rune(rg.Lo) + d)
				add(rune(rg.Hi) + d)
			}
		}
	}
	for _, r := range []rune{0x2ff, 0x300, 0x301, 0x36f, 0x370, 0x7f, 0x80, 0xff, 0x100, 0x24f, 0x1e00, 0x1eff} {
		add(r)
	}
	return out
})

// nearRune draws a rune that matters next to a number.
func nearRune(t *pbt.T) string {
	switch t.N(5) {
	case 0:
		return string(pbt.Pick(t.Src, []rune{0x2ff, 0x300, 0x301, 0x36e, 0x36f, 0x370, '%', '$', 'a', 'z', 'A', 'Z', '@', '[', '`', '{', 0xaa, 0xba, 0xbf, 0xc0, 0xd7, 0xf7, 0xff, 0x24f, 0x250, 0x20a0, 0x20bf, 0x20cf, 0xa2, 0xa5, 0xfe69, 0xff04, 0xffe0, 0x483, 0x591, 0x1dff, 0x20d0, 0xfe20}))
	case 1:
		return char(t)
	}
	return string(pbt.Pick(t.Src, edgeRunes()))
}

var digitZeros = sync.OnceValue(func() []rune {
	var out []rune
	for _, rg := range unicode.Nd.R16 {
		for r := rune(rg.Lo); r <= rune(rg.Hi); r += 10 {
			out = append(out, r)
		}
	}
	for _, rg := range unicode.Nd.R32 {
		for r := rune(rg.Lo); r <= rune(rg.Hi); r += 10 {
			out = append(out, r)
		}
	}
	return out
})

// script rewrites ASCII digits in another script, all or some of them.
func script(t *pbt.T, s string) string {
	z := pbt.Pick(t.Src, digitZeros())
	if t.Chance(1, 3) {
		z = pbt.Pick(t.Src, []rune{0xFF10, 0x660, 0x6F0, 0x966, 0x1D7CE})
	}
	some := t.Chance(1, 3)
	var b strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' && !(some && t.Bool()) {
			r = z + r - '0'
		}
		b.WriteRune(r)
	}
	return b.String()
}

var separators = []string{" ", "-", ".", "/", "(", ")", "[", "]", "~", "\u2010", "\u2011", "\u2012", "\u2013", "\u2014", "\u2015", "\u2212", "\u30FC", "\uFF0D", "\uFF0E", "\uFF0F",
	"\u00A0", "\u00AD", "\u200B", "\u2060", "\u3000", "\uFF08", "\uFF09", "\uFF3B", "\uFF3D", "\u2053", "\u223C", "\uFF5E"}

// sprinkle inserts accepted separators between digits.
func sprinkle(t *pbt.T, s string) string {
	if len(s) == 0 {
		return s
	}
	var b strings.Builder
	rate := 1 + t.N(4)
	fav := pbt.Pick(t.Src, separators)
	for i, r := range s {
		if i > 0 && t.N(5) < rate-1 {
			if t.Chance(1, 4) {
				b.WriteString(pbt.Pick(t.Src, separators))
			} else {
				b.WriteString(fav)
			}
		}
		b.WriteRune(r)
	}
	return b.String()
}

// vanity writes some digits as keypad letters.
func vanity(t *pbt.T, s string, atLeast int) string {
	keys := [10]string{2: "ABC", 3: "DEF", 4: "GHI", 5: "JKL", 6: "MNO", 7: "PQRS", 8: "TUV", 9: "WXYZ"}
	b := []byte(s)
	n := 0
	for i := len(b) - 1; i >= 0 && (n < atLeast || t.Bool()); i-- {
		if c := b[i]; c >= '2' && c <= '9' {
			l := keys[c-'0'][t.N(len(keys[c-'0']))]
			if t.Bool() {
				l |= 0x20
			}
			b[i] = l
			n++
		}
	}
	return string(b)
}

var extLabels20 = []string{";ext=", " ext ", " ext. ", " extn ", " extn. ", " extension ", " extensi\u00F3n ", " extensio\u0301n: ", "xt ", " xtn", "xtensi\u00F3", ",ext", " anexo ", "anexo: ", " \u0434\u043E\u0431 ", "\u0434\u043E\u0431.",
	"\uFF45\uFF58\uFF54\uFF4E", " \uFF58\uFF54\uFF4E: ", "\uFF45\uFF58\uFF54", " EXT. ", " Ext:", "Extension"}
var extLabels9 = []string{"x", " x ", "X", " x: ", " #", "#", "~", " ~ ", "\uFF58", "\uFF03", "\uFF5E", " int ", "int.", " \uFF49\uFF4E\uFF54 ", ",x", " X."}
var extLabels15 = []string{",,", ";", " ,,", ";;"}
var extLabels9b = []string{",", ", ", ",,,", " , "}

// extText writes an extension with a random label; long may exceed the limit.
func extText(t *pbt.T, e string) string {
	switch t.Weighted(5, 4, 2, 2, 1) {
	case 0:
		return pbt.Pick(t.Src, extLabels20) + e + hash(t)
	case 1:
		return pbt.Pick(t.Src, extLabels9) + e + hash(t)
	case 2:
		return pbt.Pick(t.Src, extLabels15) + e + hash(t)
	case 3:
		return pbt.Pick(t.Src, extLabels9b) + e + hash(t)
	}
	return pbt.Pick(t.Src, []string{" ", "-", " - ", "- "}) + e + "#"
}

func hash(t *pbt.T) string {
	if t.Chance(1, 6) {
		return "#"
	}
	return ""
}

var junkHead = []string{"Tel: ", "tel:", "call ", "(", "~", " ", "\t", "\u00A0", "No. ", "*", "#", "Tel ", "\uFF34: ", "...", "phone=", "\x80", "--", "\n", "T: +", "x"}
var junkTail = []string{" ", ".", ";", "/", ")", "-", " x", "/x", "\\ x12", "/ x 5", ",", "abc", "*", "#", " or", "\n", "\t", "\xff", "...", " /x1234", "; ", "--", "!", "\u2028", ";ext=", ";isub=", ";isub=12", ";phone-context="}

var contexts = []string{"example.com", "www.example.com.", "a", "a-b.c", "+44", "+1", "+1-650", "+(44)", "+", "", "1.com", "com.1", "ex ample", "+\uFF11", "-a", "a-.com", "+1-", "example.com;x=1", "\u0661", "+49;isub=1", "example..com"}

// numText draws a text that is more or less a phone number, and a region it may
// be dialled from. The region asked for is used when not empty.
func numText(t *pbt.T, w *model.World, region string) (string, string) {
	r := ""
	s := t.Recall("text", func(s string) string { return mutate(t, s) }, func() (s string) {
		s, r = newNumText(t, w, region)
		return s
	})
	if r == "" {
		if r = region; r == "" {
			r = supported(t, w)
		}
	}
	return s, r
}

func newNumText(t *pbt.T, w *model.World, region string) (string, string) {
	var p *model.Plan
	if region == "" {
		p = anyPlan(t, w)
		region = p.ID
		if region == "001" {
			region = supported(t, w)
		}
	} else if p = w.Regions[region]; p == nil || !w.Supported[region] {
		p = anyPlan(t, w)
	}
	nsn := anyNSN(t, p)
	cc := strconv.Itoa(p.CC)
	caller := w.Regions[region]
	idd := func() string {
		if caller == nil || caller.IntlPrefix == "" {
			return "00"
		}
		return fromRE(t, caller.IntlPrefix)
	}
	np := func() string {
		if p.NPForParsing != "" && t.Chance(3, 4) {
			return fromRE(t, p.NPForParsing)
		}
		return p.NatPrefix
	}
	if t.Chance(1, 5) {
		nsn = ruleGroups(t, p, nsn)
	}
	body := ""
	switch t.Weighted(14, 10, 14, 10, 5, 6, 6, 3, 3, 3, 3, 2) {
	case 0: // national, with prefix
		body = np() + nsn
	case 1: // national, bare
		body = nsn
	case 2:
		body = "+" + cc + sep(t) + nsn
	case 3:
		body = idd() + sep(t) + cc + sep(t) + nsn
		// dialled from another region most of the time
		if t.Bool() {
			region = supported(t, w)
			if c := w.Regions[region]; c != nil && c.IntlPrefix != "" {
				body = fromRE(t, c.IntlPrefix) + sep(t) + cc + sep(t) + nsn
			}
		}
	case 4: // code without plus
		body = cc + nsn
	case 5:
		body = "+" + cc + pbt.Pick(t.Src, []string{" ", "(", " (", "-", ""}) + np() + pbt.Pick(t.Src, []string{") ", ")", " ", "-", ""}) + nsn
	case 6: // code without plus, with prefix
		body = cc + np() + nsn
	case 7: // wrong code
		body = "+" + strconv.Itoa(t.N(1100)) + nsn
	case 8:
		body = strings.Repeat("+", 1+t.N(3)) + cc + nsn
	case 9: // idd then zero or junk
		body = idd() + digits(t, 1+t.N(3)) + nsn
	case 10:
		body = np() + cc + nsn
	case 11:
		body = digits(t, t.N(22))
	}
	if t.Chance(1, 6) {
		body = vanity(t, body, t.N(5))
	}
	if t.Chance(1, 3) {
		body = sprinkle(t, body)
	}
	if t.Chance(1, 10) {
		body = strings.Replace(body, "+", "\uFF0B", 1)
	}
	if t.Chance(1, 5) {
		e := ext(t)
		if t.Chance(1, 8) {
			e = digits(t, 1+t.N(22))
		}
		body += extText(t, e)
	}
	if t.Chance(1, 8) {
		body = script(t, body)
	}
	if t.Chance(1, 12) {
		c := pbt.Pick(t.Src, contexts)
		if t.Bool() {
			c = "+" + cc
		}
		if t.Chance(1, 3) {
			body = "tel:" + body
		}
		nat := body
		body += ";phone-context=" + c
		if t.Chance(1, 10) {
			// the context first, with nothing before it
			body = ";phone-context=" + c + pbt.Pick(t.Src, []string{"", ";", ";", " "}) + nat
		} else if t.Chance(1, 3) {
			body += pbt.Pick(t.Src, []string{";isub=123", ";ext=12", ";x=y", ";", ";phone-context=+1"})
		}
	} else if t.Chance(1, 14) {
		body = pbt.Pick(t.Src, []string{"tel:", "TEL:", "tel: "}) + body
		if t.Bool() {
			body += pbt.Pick(t.Src, []string{";isub=123", ";ext=12", ";x=y", ";", ";ext=3;isub=4"})
		}
	}
	if t.Chance(1, 10) {
		body = pbt.Pick(t.Src, junkHead) + body
	}
	if t.Chance(1, 10) {
		body += pbt.Pick(t.Src, junkTail)
	}
	if t.Chance(1, 10) {
		body = mutate(t, body)
	}
	if t.Chance(1, 80) {
		// around the length limit
		pad := 250 - len(body) + t.Range(-2, 2)
		if pad > 0 {
			fill := pbt.Pick(t.Src, []string{" ", "a", "-", "0", "1"})
			if t.Bool() {
				body = strings.Repeat(fill, pad) + body
			} else {
				body += strings.Repeat(fill, pad)
			}
		}
	}
	return body, region
}

func sep(t *pbt.T) string { return pbt.Pick(t.Src, []string{"", "", " ", "-", ".", "  "}) }

// ruleGroups groups nsn by one of the plan's own rules.
func ruleGroups(t *pbt.T, p *model.Plan, nsn string) string {
	return model.Grouped(p, nsn, model.Style(pbt.Pick(t.Src, []model.Style{model.International, model.National, model.RFC3966})))
}

// mutate applies random character edits.
func mutate(t *pbt.T, s string) string {
	for n := 1 + t.N(3); n > 0; n-- {
		rs := []rune(s)
		i := t.N(len(rs) + 1)
		switch t.N(4) {
		case 0:
			s = string(rs[:i]) + char(t) + string(rs[i:])
		case 1:
			if i < len(rs) {
				s = string(rs[:i]) + string(rs[i+1:])
			}
		case 2:
			if i < len(rs) {
				s = string(rs[:i]) + char(t) + string(rs[i+1:])
			}
		case 3:
			j := t.N(len(rs) + 1)
			if i > j {
				i, j = j, i
			}
			s = string(rs[:j]) + string(rs[i:j]) + string(rs[j:])
		}
		if len(s) > 600 {
			s = s[:600]
		}
	}
	return s
}

// anyText draws any text: number-like or not.
func anyText(t *pbt.T, w *model.World) (string, string) {
	if t.Chance(1, 12) {
		return text(t, 40), anyRegion(t, w)
	}
	s, r := numText(t, w, "")
	if t.Chance(1, 6) {
		r = anyRegion(t, w)
	}
	return s, r
}
