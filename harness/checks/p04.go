package checks

import (
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

// written number: how its parts were put together, so that rewriting cannot touch
// the wrong part.
type spelled struct {
	head   string // plus, international prefix and code, national prefix
	nsn    string
	region string
}

// spell draws a plainly written number.
func spell(t *pbt.T, w *model.World) spelled {
	p := anyPlan(t, w)
	nsn := anyNSN(t, p)
	for len(nsn) < 4 {
		nsn += digits(t, 1)
	}
	region := supported(t, w)
	if p.ID != "001" && t.Chance(2, 3) {
		region = p.ID
	}
	switch t.Weighted(4, 4, 2, 1) {
	case 0:
		if t.Chance(1, 6) {
			region = anyRegion(t, w)
		}
		return spelled{"+" + itoa(p.CC), nsn, region}
	case 1:
		np := ""
		if p.NPForParsing != "" && t.Chance(2, 3) {
			np = fromRE(t, p.NPForParsing)
		}
		return spelled{np, nsn, region}
	case 2:
		idd := "00"
		if c := w.Regions[region]; c != nil && c.IntlPrefix != "" {
			idd = fromRE(t, c.IntlPrefix)
		}
		return spelled{idd + itoa(p.CC), nsn, region}
	}
	return spelled{itoa(p.CC), nsn, region}
}

// separators that cannot be taken for an extension mark
var plainSeps = func() []string {
	var out []string
	for _, s := range separators {
		if s != "~" && s != "\uFF5E" {
			out = append(out, s)
		}
	}
	return out
}()

// spread inserts separators between the digits of s.
func spread(t *pbt.T, s string) string {
	var b strings.Builder
	fav := pbt.Pick(t.Src, plainSeps)
	rate := 1 + t.N(6)
	for i, r := range s {
		if i > 0 && t.N(6) < rate {
			for k := 1 + t.N(6)/5; k > 0; k-- {
				if t.Bool() {
					b.WriteString(fav)
				} else {
					b.WriteString(pbt.Pick(t.Src, plainSeps))
				}
			}
		}
		b.WriteRune(r)
	}
	return b.String()
}

var leadIns = []string{" ", "Tel: ", "Call ", "call us: (", "(", "[", "\u00A0", "...", "№ ", "Тел. ", "電話", "tel:", "~", "*", "#", "-", "/", "\t", "\n", "é!", "x", "ext ", "$", "\"", "T", "=", "\\ x "}
var tailOffs = []string{" ", ".", ",", ";", "!", "?", ")", "]", "-", "/", "\"", "\n", "\u3000", "...", " )", "*", "\u00A0", ";;", " -", "\u2028", "'", "=", "\u20AC", "~"}

var extWords = []string{"ext", "Ext", "EXT", "extn", "xt", "xtn", "extension", "Extension", "extensi\u00F3n", "extensio\u0301n", "\uFF45\uFF58\uFF54", "\uFF58\uFF54\uFF4E", "\u0434\u043E\u0431", "\u0414\u043E\u0431", "anexo", "Anexo"}
var extMarks = []string{"x", "X", "\uFF58", "#", "\uFF03", "~", "\uFF5E", "int", "Int", "\uFF49\uFF4E\uFF54"}

// labelled writes an extension of at most six digits with an accepted label.
func labelled(t *pbt.T, e string) string {
	before := pbt.Pick(t.Src, []string{"", " ", ", ", ",", "\u00A0", "  ", "\t"})
	after := pbt.Pick(t.Src, []string{"", " ", ".", ". ", ":", ": ", "\uFF0E", "-", " - ", "\u00A0", ", "})
	switch t.Weighted(1, 4, 4, 1, 2, 2) {
	case 0:
		return ";ext=" + e
	case 1:
		return before + pbt.Pick(t.Src, extWords) + after + e + hash(t)
	case 2:
		return before + pbt.Pick(t.Src, extMarks) + after + e + hash(t)
	case 3:
		return pbt.Pick(t.Src, []string{" ", "-", " - ", "--"}) + e + "#"
	case 4:
		return pbt.Pick(t.Src, []string{",,", ";", " ,,", " ;"}) + after + e + hash(t)
	}
	return pbt.Pick(t.Src, []string{",", " ,", ",,,"}) + after + e + hash(t)
}

func init() {
	register(&pbt.Prop{
		ID:   "P04",
		Rule: "the plain text parses and the rewritten text differs from it; counted by distinct rewritten text and region",
		Subs: []*pbt.Sub{
			{Name: "rewrite", Quick: 700000, Thorough: 35000000, Run: func(t *pbt.T) { checkRewrite(t, w0()) }},
			plansSub(20000, 400000, func(t *pbt.T, w *model.World) { checkRewrite(t, w) }),
			{Name: "international-prefix", Quick: 300000, Thorough: 15000000, Run: func(t *pbt.T) {
				w := w0()
				p := anyPlan(t, w)
				nsn := anyNSN(t, p)
				r := supported(t, w)
				c := w.Regions[r]
				if c.IntlPrefix == "" || len(nsn) < 2 {
					return
				}
				full := itoa(p.CC) + nsn
				idd := fromRE(t, c.IntlPrefix)
				if model.MatchAt(c.IntlPrefix, idd+full) != len(idd) {
					t.Label("skipped: the prefix pattern takes more or less")
					return
				}
				s := idd + full
				if t.Chance(1, 2) {
					s = idd + sep(t) + spread(t, full)
				}
				if t.Chance(1, 5) {
					s = script(t, s)
				}
				sameParse(t, "+"+full, s, r, "international prefix")
			}},
			{Name: "rfc3966", Quick: 150000, Thorough: 6000000, Run: func(t *pbt.T) {
				// the same number as a tel URI: global, or local with its context
				w := w0()
				p := anyPlan(t, w)
				nsn := anyNSN(t, p)
				if len(nsn) < 4 {
					return
				}
				plain := "+" + itoa(p.CC) + nsn
				s := "+" + itoa(p.CC) + "-" + nsn
				if t.Bool() {
					s = nsn + ";phone-context=+" + itoa(p.CC)
					if t.Chance(1, 4) {
						s = nsn + ";phone-context=+" + itoa(p.CC) + "-"
						if len(nsn) > 5 {
							s = nsn[2:] + ";phone-context=+" + itoa(p.CC) + "-" + nsn[:2]
						}
					}
				}
				if t.Chance(1, 3) {
					s += ";isub=" + digits(t, 1+t.N(5))
				}
				if t.Chance(2, 3) {
					s = "tel:" + s
				}
				sameParse(t, plain, s, anyRegion(t, w), "tel URI")
			}},
		},
	})
}

func sameParse(t *pbt.T, plain, s, r, ways string) {
	t.Log("%q rewritten (%s) as %q in %q", plain, ways, s, r)
	a, err := pn.Parse(plain, r)
	if err != nil {
		t.Label("skipped: the plain text does not parse")
		return
	}
	for _, k := range strings.Fields(ways) {
		t.Label(k)
	}
	if s != plain {
		t.NonTrivial(s + "|" + r)
	}
	b, err := pn.Parse(s, r)
	if err != nil || !eq(fromPB(a), fromPB(b)) {
		t.Fail("%q parses in %q to %s, but written as %q (%s) to %s (%v)", plain, r, show(fromPB(a)), s, ways, show(fromPB(b)), err)
	}
}

func checkRewrite(t *pbt.T, w *model.World) {
	x := spell(t, w)
	e := ""
	if t.Chance(1, 4) {
		e = digits(t, 1+t.N(6))
	}
	plain := x.head + x.nsn
	if e != "" {
		plain += ";ext=" + e
	}
	head, nsn := x.head, x.nsn
	ways := ""
	if t.Chance(1, 2) {
		ways += " separators"
		s := spread(t, head+nsn)
		head, nsn = "", s
	}
	if e == "" && strings.TrimLeft(nsn, "0123456789") == "" && t.Chance(1, 3) {
		// letters for a tail of keypad digits, at least three
		k := len(nsn)
		for k > 0 && nsn[k-1] >= '2' {
			k--
		}
		if min := 3; len(nsn)-k >= min && model.CountDigits(head)+k >= 3 {
			k += t.N(len(nsn) - k - min + 1)
			ways += " letters"
			v := []byte(nsn)
			for i := k; i < len(v); i++ {
				keys := [10]string{2: "ABC", 3: "DEF", 4: "GHI", 5: "JKL", 6: "MNO", 7: "PQRS", 8: "TUV", 9: "WYZ"}[v[i]-'0']
				v[i] = keys[t.N(len(keys))]
				if t.Bool() {
					v[i] |= 0x20
				}
			}
			nsn = string(v[:k]) + pbt.Pick(t.Src, []string{"", "-", " "}) + string(v[k:])
		}
	}
	s := head + nsn
	if !strings.Contains(ways, "letters") && t.Chance(1, 3) {
		ways += " script"
		s = script(t, s)
	}
	if t.Chance(1, 3) && strings.Contains(s, "+") {
		ways += " plus"
		s = strings.Replace(s, "+", "\uFF0B", 1)
	}
	if e != "" {
		ways += " extension"
		ee := e
		if t.Chance(1, 4) {
			ee = script(t, e)
		}
		s += labelled(t, ee)
	}
	if t.Chance(1, 4) {
		ways += " lead-in"
		s = pbt.Pick(t.Src, leadIns) + s
	}
	if t.Chance(1, 4) {
		ways += " tail"
		s += pbt.Pick(t.Src, tailOffs)
	}
	if len(s) > 250 {
		return
	}
	sameParse(t, plain, s, x.region, ways)
}
