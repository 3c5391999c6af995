package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

// regionsFor draws regions to ask a number about: its own, siblings and others.
func regionFor(t *pbt.T, w *model.World, n *model.Num) string {
	if rs := w.CC2R[n.CC]; len(rs) > 0 && t.Chance(2, 3) {
		return pbt.Pick(t.Src, rs)
	}
	return anyRegion(t, w)
}

func init() {
	register(&pbt.Prop{
		ID:   "P06",
		Rule: "the number is valid, or its calling code is known and shared by several regions; counted by distinct number",
		Subs: []*pbt.Sub{
			{Name: "parsed-like", Quick: 900000, Thorough: 50000000, Run: func(t *pbt.T) { checkClass(t, w0(), numMsg(t, w0())) }},
			{Name: "any-message", Quick: 200000, Thorough: 8000000, Run: func(t *pbt.T) { checkClass(t, w0(), wildNum(t, w0())) }},
			{Name: "shared-codes", Quick: 300000, Thorough: 15000000, Run: func(t *pbt.T) {
				// numbers written for one region of a shared calling code, judged for all of them
				w := w0()
				cc := pbt.Pick(t.Src, sharedCodes(w))
				p := w.Regions[pbt.Pick(t.Src, w.CC2R[cc])]
				s := anyNSN(t, p)
				if p.LeadingDigits != "" && t.Chance(1, 3) {
					l := fromRE(t, p.LeadingDigits)
					if len(l) < len(s) {
						s = l + s[len(l):]
					}
				}
				checkClass(t, w, numOf(cc, s))
			}},
			plansSub(30000, 600000, func(t *pbt.T, w *model.World) { checkClass(t, w, numMsg(t, w)) }),
		},
	})
}

func sharedCodes(w *model.World) []int {
	var out []int
	for _, cc := range w.Codes {
		if len(w.CC2R[cc]) > 1 {
			out = append(out, cc)
		}
	}
	return out
}

func checkClass(t *pbt.T, w *model.World, n *model.Num) {
	t.Log("number %s", show(n))
	p := msg(t, n)
	typ, valid, region := w.TypeOf(n), w.Valid(n), w.RegionOf(n)
	if valid || len(w.CC2R[n.CC]) > 1 {
		t.NonTrivial(show(n))
	}
	if valid {
		t.Label("valid")
		t.Label("type " + itoa(int(typ)))
	} else {
		t.Label("not valid")
	}
	if g := pn.GetNumberType(p); g != pn.PhoneNumberType(typ) {
		t.Fail("GetNumberType(%s) = %d; the plan gives %d", show(n), g, typ)
	}
	if g := pn.IsValidNumber(p); g != valid {
		t.Fail("IsValidNumber(%s) = %v; the plan gives %v", show(n), g, valid)
	}
	if g := pn.GetRegionCodeForNumber(p); g != region {
		t.Fail("GetRegionCodeForNumber(%s) = %q; the plan gives %q", show(n), g, region)
	}
	for i := 0; i < 3; i++ {
		r := regionFor(t, w, n)
		if i == 0 {
			r = region
		}
		if g, x := pn.IsValidNumberForRegion(p, r), w.ValidFor(n, r); g != x {
			t.Fail("IsValidNumberForRegion(%s, %q) = %v; the plan gives %v", show(n), r, g, x)
		} else if g && r != "001" && pn.GetCountryCodeForRegion(r) != n.CC {
			t.Fail("%s is valid for region %q of another calling code", show(n), r)
		}
	}
	if g, x := pn.IsNumberGeographical(p), model.Geographical(typ, n.CC); g != x {
		t.Fail("IsNumberGeographical(%s) = %v; the rules give %v", show(n), g, x)
	}
	ot := model.Type(t.N(13))
	if g, x := pn.IsNumberGeographicalForType(pn.PhoneNumberType(ot), n.CC), model.Geographical(ot, n.CC); g != x {
		t.Fail("IsNumberGeographicalForType(%d, %d) = %v; the rules give %v", ot, n.CC, g, x)
	}
	// calling codes no plan has, some of which end in the bits of one that counts
	if oc := pbt.Pick(t.Src, w.Codes) + pbt.Pick(t.Src, []int{0, 1 << 8, 1 << 16, 1 << 24, 1000, -1 << 16, -1 << 31}); t.Bool() {
		if g, x := pn.IsNumberGeographicalForType(pn.PhoneNumberType(ot), oc), model.Geographical(ot, oc); g != x {
			t.Fail("IsNumberGeographicalForType(%d, %d) = %v; the rules give %v", ot, oc, g, x)
		}
	}
	if g, x := pn.CanBeInternationallyDialled(p), w.CanDialIntl(n); g != x {
		t.Fail("CanBeInternationallyDialled(%s) = %v; the plan gives %v", show(n), g, x)
	}
	if g := pn.GetNationalSignificantNumber(p); g != n.NSN() {
		t.Fail("GetNationalSignificantNumber(%s) = %q, want %q", show(n), g, n.NSN())
	}
	// consistency
	if (pn.GetNumberType(p) != pn.UNKNOWN) != pn.IsValidNumber(p) {
		t.Fail("%s: type %d but valid=%v", show(n), pn.GetNumberType(p), pn.IsValidNumber(p))
	}
}
