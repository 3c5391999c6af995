package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"
	"sort"
	"sync"

	"verifharness/model"
	"verifharness/pbt"
)

var shortKinds = []model.Kind{model.ShortCode, model.PremiumRate, model.StandardRate, model.TollFree, model.Emergency, model.CarrierSpecific, model.SmsServices, model.General}

var shortIDs = sync.OnceValue(func() []string {
	var out []string
	for r := range w0().Short {
		out = append(out, r)
	}
	sort.Strings(out)
	return out
})

// shortText draws the digits of a short number of region r.
func shortText(t *pbt.T, r string) string {
	return t.Recall("short", func(s string) string { return edit(t, s) }, func() string { return newShortText(t, r) })
}

func newShortText(t *pbt.T, r string) string {
	p := w0().Short[r]
	if p == nil {
		return digits(t, 1+t.N(6))
	}
	var ds []*model.Desc
	for _, k := range shortKinds {
		if hasData(p.D[k]) {
			ds = append(ds, p.D[k])
		}
	}
	if len(ds) == 0 {
		return digits(t, 3)
	}
	s := fromDesc(t, pbt.Pick(t.Src, ds))
	switch t.Weighted(6, 1, 1, 1) {
	case 1:
		s = edit(t, s)
	case 2:
		s += digits(t, 1+t.N(3))
	case 3:
		s = digits(t, max(1, len(s)))
	}
	return s
}

func shortRegion(t *pbt.T) string {
	return t.Recall("short region", nil, func() string { return newShortRegion(t) })
}

func newShortRegion(t *pbt.T) string {
	if t.Chance(1, 4) {
		return pbt.Pick(t.Src, []string{"BR", "CL", "NI", "US", "CA", "BS", "GB", "IM", "FR", "GF", "RE", "AU", "CX", "IT", "VA", "NO", "SJ", "RU", "KZ", "FI", "AX", "MA", "EH"})
	}
	return pbt.Pick(t.Src, shortIDs())
}

func init() {
	register(&pbt.Prop{
		ID:   "P13",
		Rule: "the number is possible as a short number, or the text reaches an emergency service; counted by distinct number and region",
		Subs: []*pbt.Sub{
			{Name: "numbers", Quick: 900000, Thorough: 40000000, Run: func(t *pbt.T) {
				w := w0()
				r := shortRegion(t)
				cc := 0
				if p := w.Regions[r]; p != nil {
					cc = p.CC
				}
				n := numOf(cc, shortText(t, r))
				if t.Chance(1, 15) {
					n = wildNum(t, w)
				}
				if t.Chance(1, 4) {
					r = regionFor(t, w, n)
				}
				checkShort(t, w, n, r)
			}},
			{Name: "shared-codes", Quick: 300000, Thorough: 10000000, Run: func(t *pbt.T) {
				w := w0()
				cc := pbt.Pick(t.Src, sharedCodes(w))
				r := pbt.Pick(t.Src, w.CC2R[cc])
				n := numOf(cc, shortText(t, r))
				checkShort(t, w, n, pbt.Pick(t.Src, w.CC2R[cc]))
			}},
			// regions that share calling codes in other ways
			worldsSub("plans", 40000, 800000, func(t *pbt.T) *model.World {
				if t.Chance(1, 3) {
					return genWorld(t)
				}
				return regroup(t)
			}, func(t *pbt.T, w *model.World) {
				cc := pbt.Pick(t.Src, w.Codes)
				n := numOf(cc, shortText(t, pbt.Pick(t.Src, w.CC2R[cc])))
				r := pbt.Pick(t.Src, w.CC2R[cc])
				if t.Chance(1, 6) {
					r = regionFor(t, w, n)
				}
				checkShort(t, w, n, r)
			}),
			{Name: "emergency", Quick: 500000, Thorough: 20000000, Run: func(t *pbt.T) {
				w := w0()
				r := shortRegion(t)
				s := ""
				if p := w.Short[r]; p != nil && hasData(p.D[model.Emergency]) && t.Chance(3, 4) {
					s = fromRE(t, p.D[model.Emergency].Pattern)
				} else {
					s = shortText(t, r)
				}
				switch t.Weighted(3, 2, 1, 1, 1, 1, 1, 1) {
				case 1:
					s += digits(t, 1+t.N(5))
				case 2:
					s = pbt.Pick(t.Src, []string{"+", "\uFF0B", "+1", "00"}) + s
				case 3:
					s = sprinkle(t, s)
				case 4:
					s = script(t, s)
				case 5:
					s = pbt.Pick(t.Src, junkHead) + s
				case 6:
					s += pbt.Pick(t.Src, junkTail)
				case 7:
					s = mutate(t, s)
				}
				if t.Chance(1, 10) {
					r = anyRegion(t, w)
				}
				checkEmergency(t, w, s, r)
			}},
		},
	})
}

func checkShort(t *pbt.T, w *model.World, n *model.Num, r string) {
	t.Log("short number %s in %q", show(n), r)
	p := msg(t, n)
	if w.ShortPossible(n) {
		t.NonTrivial(show(n) + r)
	}
	bools := []struct {
		name string
		g, x bool
	}{
		{"IsPossibleShortNumberForRegion", pn.IsPossibleShortNumberForRegion(p, r), w.ShortPossibleIn(n, r)},
		{"IsPossibleShortNumber", pn.IsPossibleShortNumber(p), w.ShortPossible(n)},
		{"IsValidShortNumberForRegion", pn.IsValidShortNumberForRegion(p, r), w.ShortValidIn(n, r)},
		{"IsValidShortNumber", pn.IsValidShortNumber(p), w.ShortValid(n)},
		{"IsCarrierSpecific", pn.IsCarrierSpecific(p), w.CarrierSpecific(n)},
		{"IsCarrierSpecificForRegion", pn.IsCarrierSpecificForRegion(p, r), w.CarrierSpecificIn(n, r)},
		{"IsSmsServiceForRegion", pn.IsSmsServiceForRegion(p, r), w.SMSIn(n, r)},
	}
	for _, b := range bools {
		if b.g != b.x {
			t.Fail("%s(%s, %q) = %v; the plan gives %v", b.name, show(n), r, b.g, b.x)
		}
		if b.x {
			t.Label(b.name)
		}
	}
	c := w.CostIn(n, r)
	t.Label("cost " + itoa(int(c)))
	if g := pn.GetExpectedCostForRegion(p, r); g != pn.ShortNumberCost(c) {
		t.Fail("GetExpectedCostForRegion(%s, %q) = %v; the plan gives %d", show(n), r, g, c)
	} else if name := []string{"TOLL_FREE", "STANDARD_RATE", "PREMIUM_RATE", "UNKNOWN_COST"}[c]; g.String() != name {
		t.Fail("the cost %s prints as %q", name, g.String())
	}
	c = w.CostOf(n)
	if g := pn.GetExpectedCost(p); g != pn.ShortNumberCost(c) {
		t.Fail("GetExpectedCost(%s) = %v; the plan gives %d", show(n), g, c)
	}
	if bools[2].g && !bools[0].g {
		t.Fail("%s is a valid but not a possible short number in %q", show(n), r)
	}
}

func checkEmergency(t *pbt.T, w *model.World, s, r string) {
	t.Log("emergency %q in %q", s, r)
	exact, conn := w.Emergency(s, r, false), w.Emergency(s, r, true)
	if conn {
		t.NonTrivial(s + "|" + r)
	}
	t.Label(map[bool]string{true: "connects", false: "does not connect"}[conn])
	if g := pn.IsEmergencyNumber(s, r); g != exact {
		t.Fail("IsEmergencyNumber(%q, %q) = %v; the plan gives %v", s, r, g, exact)
	}
	if g := pn.ConnectsToEmergencyNumber(s, r); g != conn {
		t.Fail("ConnectsToEmergencyNumber(%q, %q) = %v; the plan gives %v", s, r, g, conn)
	}
	if pn.IsEmergencyNumber(s, r) && !pn.ConnectsToEmergencyNumber(s, r) {
		t.Fail("%q is an emergency number in %q but does not connect", s, r)
	}
}
