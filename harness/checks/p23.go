package checks

import (
	"fmt"
	"strconv"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

func fmtPB(f *model.NumFmt) *pn.NumberFormat {
	x := &pn.NumberFormat{Pattern: proto.String(f.Pattern), Format: proto.String(f.Format), LeadingDigitsPattern: f.Leading}
	if f.NPRule != "" {
		x.NationalPrefixFormattingRule = proto.String(f.NPRule)
	}
	if f.CarrierRule != "" {
		x.DomesticCarrierCodeFormattingRule = proto.String(f.CarrierRule)
	}
	if f.NPOptional {
		x.NationalPrefixOptionalWhenFormatting = proto.Bool(true)
	}
	return x
}

// userRule draws a formatting rule a caller could write for numbers like nsn.
func userRule(t *pbt.T, p *model.Plan, nsn string) *model.NumFmt {
	if len(p.Formats) > 0 && t.Chance(1, 5) {
		c := *pbt.Pick(t.Src, p.Formats)
		if strings.Contains(c.NPRule, "$") && t.Bool() {
			c.NPRule = pbt.Pick(t.Src, []string{"$NP$FG", "$NP $FG", "($NP$FG)", "$FG", "$NP-$1", "$NP $FG "})
		}
		return &c
	}
	f := &model.NumFmt{}
	// split the digits into groups
	groups := 1 + t.N(5)
	rest := len(nsn)
	if t.Chance(1, 6) {
		rest += t.Range(-2, 2)
	}
	var b strings.Builder
	for i := 0; i < groups; i++ {
		l := rest
		if i < groups-1 {
			l = 0
			if rest > 0 {
				l = t.N(rest + 1)
			}
		}
		l = max(l, 0)
		rest -= l
		switch t.N(4) {
		case 0:
			fmt.Fprintf(&b, `(\d{%d})`, l)
		case 1:
			fmt.Fprintf(&b, `(\d{%d,%d})`, l, l+t.N(3))
		case 2:
			fmt.Fprintf(&b, `([0-9]{%d})`, l)
		case 3:
			if i == groups-1 {
				b.WriteString(`(\d+)`)
			} else {
				fmt.Fprintf(&b, `(\d{%d})`, l)
			}
		}
	}
	f.Pattern = b.String()
	b.Reset()
	seps := []string{" ", "-", ".", "/", "", "x", "0", "5", "(", ") ", "_", "a", " ext ", "N", "CC", "é", "#"}
	for i := 1; i <= groups; i++ {
		if i > 1 || t.Chance(1, 8) {
			b.WriteString(pbt.Pick(t.Src, seps))
		}
		k := i
		if t.Chance(1, 12) {
			k = 1 + t.N(groups)
		}
		b.WriteString("$" + strconv.Itoa(k))
		if t.Chance(1, 10) {
			b.WriteString(pbt.Pick(t.Src, []string{"x", "0", "_", "a", ")", "7"}))
		}
	}
	f.Format = b.String()
	if t.Chance(1, 2) {
		f.NPRule = pbt.Pick(t.Src, []string{"$NP$FG", "$NP $FG", "($NP$FG)", "$FG", "$NP-$FG", "$NP $1", "$1", "0$1", "($FG)", "$NP$FG ", "$FG$NP", "8~$FG"})
	}
	for k := t.N(3); k > 0; k-- {
		switch t.N(4) {
		case 0:
			if len(nsn) > 0 {
				f.Leading = append(f.Leading, nsn[:1+t.N(len(nsn))])
			}
		case 1:
			f.Leading = append(f.Leading, `[0-9]`)
		case 2:
			f.Leading = append(f.Leading, digits(t, 1+t.N(2)))
		case 3:
			if len(nsn) > 1 {
				f.Leading = append(f.Leading, nsn[:1]+"|"+nsn[1:])
			}
		}
	}
	return f
}

func init() {
	register(&pbt.Prop{
		ID:   "P23",
		Rule: "a caller rule or a carrier rule applies to the number; counted by distinct number and rules",
		Subs: []*pbt.Sub{
			{Name: "by-pattern", Quick: 600000, Thorough: 30000000, Run: func(t *pbt.T) { checkByPattern(t, w0()) }},
			{Name: "carrier", Quick: 500000, Thorough: 20000000, Run: func(t *pbt.T) { checkCarrier(t, w0(), carrierRuled) }},
			plansSub(20000, 400000, func(t *pbt.T, w *model.World) {
				if t.Bool() {
					checkByPattern(t, w)
				} else {
					checkCarrier(t, w, w.RegionIDs)
				}
			}),
		},
	})
}

var carrierRuled = []string{"BR", "CO", "AR", "CL", "CR", "MX", "HN", "PY", "PE", "EC", "SV", "TR", "KR", "ZW", "GT", "BO", "DO", "US", "UZ", "VE"}

func checkByPattern(t *pbt.T, w *model.World) {
	n := numMsg(t, w)
	if t.Chance(1, 10) {
		n = wildNum(t, w)
	}
	p := w.MainPlan(n.CC)
	if p == nil {
		p = anyPlan(t, w)
	}
	var rules []*model.NumFmt
	var lib []*pn.NumberFormat
	for k := t.N(4); k > 0; k-- {
		f := userRule(t, p, n.NSN())
		rules = append(rules, f)
		lib = append(lib, fmtPB(f))
		t.Log("rule %+v", *f)
	}
	st := model.Style(t.N(4))
	want := w.FormatByPattern(n, st, rules)
	if want != w.FormatByPattern(n, st, nil) {
		t.NonTrivial(fmt.Sprint(show(n), st, len(rules), want))
		t.Label("a rule applies")
	} else {
		t.Label("no rule applies")
	}
	if g := pn.FormatByPattern(msg(t, n), pn.PhoneNumberFormat(st), lib); g != want {
		t.Fail("FormatByPattern(%s, style %d) = %q; the rules give %q", show(n), st, g, want)
	}
}

func checkCarrier(t *pbt.T, w *model.World, regions []string) {
	n := numMsg(t, w)
	if t.Chance(1, 2) {
		// plans with carrier rules
		p := w.Regions[pbt.Pick(t.Src, regions)]
		n = numOf(p.CC, anyNSN(t, p))
		if t.Chance(1, 6) {
			n.Ext = ext(t)
		}
	}
	if t.Chance(1, 10) {
		n = wildNum(t, w)
	}
	if t.Chance(1, 3) {
		n.Carrier = digits(t, t.N(5))
	}
	cc := pbt.Pick(t.Src, []string{"", "15", "31", "1", "0", "099", "XX", " ", "carrier", "$1", "$2x", "$", "$$", "${1}", "$CC", "1$3"})
	if t.Bool() {
		cc = digits(t, t.N(6))
	}
	t.Log("number %s carrier %q", show(n), cc)
	want := w.FormatCarrier(n, cc)
	if want != w.FormatCarrier(n, "") {
		t.NonTrivial(show(n) + cc)
		t.Label("carrier shown")
	}
	if g := pn.FormatNationalNumberWithCarrierCode(msg(t, n), cc); g != want {
		t.Fail("FormatNationalNumberWithCarrierCode(%s, %q) = %q; the rules give %q", show(n), cc, g, want)
	}
	want = w.FormatPreferredCarrier(n, cc)
	if g := pn.FormatNationalNumberWithPreferredCarrierCode(msg(t, n), cc); g != want {
		t.Fail("FormatNationalNumberWithPreferredCarrierCode(%s, %q) = %q; the rules give %q", show(n), cc, g, want)
	}
}
