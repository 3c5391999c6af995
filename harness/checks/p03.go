package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P03",
		Rule: "the text parses to a number (rather than being rejected), counted by distinct text and region",
		Subs: []*pbt.Sub{
			{Name: "parse-text", Quick: 1200000, Thorough: 60000000, Run: func(t *pbt.T) {
				s, r := anyText(t, w0())
				checkParse(t, w0(), s, r)
			}},
			{Name: "parse-random", Quick: 200000, Thorough: 8000000, Run: func(t *pbt.T) {
				checkParse(t, w0(), text(t, 30), anyRegion(t, w0()))
			}},
			{Name: "parse-plan-prefixes", Quick: 400000, Thorough: 20000000, Run: func(t *pbt.T) {
				// digits built from the plan's own prefix patterns, where stripping decisions are made
				w := w0()
				r := supported(t, w)
				p := w.Regions[r]
				s := ""
				for i := t.N(3); i >= 0; i-- {
					switch t.N(6) {
					case 0:
						s += fromRE(t, p.NPForParsing)
					case 1:
						s += p.NatPrefix
					case 2:
						s += fromRE(t, p.IntlPrefix)
					case 3:
						s += itoa(p.CC)
					case 4:
						s += pbt.Pick(t.Src, []string{"+", "0", "00", "1"})
					case 5:
						s += fromRE(t, p.NPForParsing)
					}
				}
				s += anyNSN(t, p)
				checkParse(t, w, s, r)
			}},
			plansSub(30000, 600000, func(t *pbt.T, w *model.World) {
				s, r := anyText(t, w)
				checkParse(t, w, s, r)
			}),
		},
	})
}

func checkParse(t *pbt.T, w *model.World, s, r string) {
	t.Log("Parse(%q, %q)", s, r)
	want, werr := w.Parse(s, r, false)
	got, err := pn.Parse(s, r)
	if werr != nil {
		t.Label("rejected: " + werr.Error())
		if !sameErr(err, werr) {
			t.Fail("Parse(%q, %q): error %v, result %s; the rules give the error %q", s, r, err, show(fromPB(got)), werr)
		}
		return
	}
	t.Label("parsed")
	t.NonTrivial(s + "|" + r)
	if err != nil {
		t.Fail("Parse(%q, %q) fails with %q; the rules give %s", s, r, err, show(want))
	}
	if g := fromPB(got); !eq(g, want) {
		t.Fail("Parse(%q, %q) = %s; the rules give %s", s, r, show(g), show(want))
	}
}
