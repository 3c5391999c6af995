package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

var dialFrom = []string{"US", "CA", "BS", "BR", "MX", "CL", "UZ", "CO", "HU", "AU", "GB", "IT", "SG", "RU", "KZ", "FI", "JP", "KR", "IL", "UY", "AR", "CR", "001", "ZZ", "", "KE", "TZ", "UG", "BY", "CX"}

func caller(t *pbt.T, w *model.World, n *model.Num) string {
	switch t.N(4) {
	case 0:
		if rs := w.CC2R[n.CC]; len(rs) > 0 {
			return rs[0]
		}
	case 1:
		return regionFor(t, w, n)
	case 2:
		return pbt.Pick(t.Src, dialFrom)
	}
	return anyRegion(t, w)
}

func init() {
	register(&pbt.Prop{
		ID:   "P09",
		Rule: "the calling code is known and the caller's region is supported; counted by distinct number and caller",
		Subs: []*pbt.Sub{
			{Name: "numbers", Quick: 600000, Thorough: 30000000, Run: func(t *pbt.T) {
				n := numMsg(t, w0())
				if t.Chance(1, 3) {
					n.Carrier = digits(t, 1+t.N(4))
				}
				checkDialling(t, w0(), n, caller(t, w0(), n))
			}},
			{Name: "typed", Quick: 500000, Thorough: 25000000, Run: func(t *pbt.T) {
				w := w0()
				s, r := numText(t, w, "")
				n, err := w.Parse(s, r, true)
				if err != nil {
					t.Label("unparseable")
					return
				}
				t.Log("typed %q in %q", s, r)
				from := r
				if t.Chance(1, 2) {
					from = caller(t, w, n)
				}
				checkDialling(t, w, n, from)
				// what the user typed stays diallable as it was
				p, err := pn.ParseAndKeepRawInput(s, r)
				if err != nil {
					t.Fail("ParseAndKeepRawInput(%q, %q): %v", s, r, err)
				}
				out := pn.FormatInOriginalFormat(p, from)
				if model.DiallableOnly(out) != model.DiallableOnly(s) {
					t.Fail("%q typed in %q is shown as %q: the diallable characters changed", s, r, out)
				}
			}},
			plansSub(25000, 500000, func(t *pbt.T, w *model.World) {
				n := numMsg(t, w)
				if t.Chance(1, 3) {
					n.Carrier = digits(t, 1+t.N(3))
				}
				if t.Chance(1, 3) {
					s, r := numText(t, w, "")
					if m, err := w.Parse(s, r, true); err == nil {
						n = m
					}
				}
				checkDialling(t, w, n, caller(t, w, n))
			}),
			{Name: "any-message", Quick: 250000, Thorough: 10000000, Run: func(t *pbt.T) {
				n := wildNum(t, w0())
				checkDialling(t, w0(), n, caller(t, w0(), n))
			}},
		},
	})
}

func checkDialling(t *pbt.T, w *model.World, n *model.Num, from string) {
	t.Log("number %s from %q", show(n), from)
	p := msg(t, n)
	if w.MainPlan(n.CC) != nil && w.Supported[from] {
		t.NonTrivial(show(n) + from)
	}
	if g, x := pn.FormatOutOfCountryCallingNumber(p, from), w.FormatFrom(n, from); g != x {
		t.Fail("FormatOutOfCountryCallingNumber(%s, %q) = %q; the rules give %q", show(n), from, g, x)
	}
	for _, pretty := range []bool{false, true} {
		g, x := pn.FormatNumberForMobileDialing(p, from, pretty), w.FormatMobile(n, from, pretty)
		if g != x {
			t.Fail("FormatNumberForMobileDialing(%s, %q, %v) = %q; the rules give %q", show(n), from, pretty, g, x)
		}
		if x == "" {
			t.Label("mobile: unreachable")
		}
	}
	if g, x := pn.FormatOutOfCountryKeepingAlphaChars(p, from), w.FormatFromAlpha(n, from); g != x {
		t.Fail("FormatOutOfCountryKeepingAlphaChars(%s, %q) = %q; the rules give %q", show(n), from, g, x)
	}
	if g, x := pn.FormatInOriginalFormat(p, from), w.FormatOriginal(n, from); g != x {
		t.Fail("FormatInOriginalFormat(%s, %q) = %q; the rules give %q", show(n), from, g, x)
	}
}
