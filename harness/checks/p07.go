package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P07",
		Rule: "the calling code is known; counted by distinct number and type asked about",
		Subs: []*pbt.Sub{
			{Name: "numbers", Quick: 900000, Thorough: 50000000, Run: func(t *pbt.T) {
				n := numMsg(t, w0())
				if t.Chance(1, 6) {
					n = wildNum(t, w0())
				}
				checkPossible(t, w0(), n)
			}},
			{Name: "lengths", Count: func(string) int { return len(w0().Codes) * 12 * 24 }, Run: func(t *pbt.T) {
				// every calling code x type x length, with digits drawn at random
				w := w0()
				i := t.Index
				cc := w.Codes[i%len(w.Codes)]
				i /= len(w.Codes)
				typ := model.Type(i % 12)
				l := i / 12
				n := &model.Num{CC: cc, NLZ: 1}
				if l > 0 {
					z := t.N(min(l, 17))
					d := "9" + digits(t, l-1)
					if l > 19 {
						d = d[:19]
					}
					n = numOfAny(cc, d)
					if z > 0 && l > z {
						n = numOfAny(cc, d[z:])
						n.ILZ, n.NLZ = true, int32(z)
					}
				}
				checkPossibleType(t, w, n, typ)
				checkPossible(t, w, n)
			}},
			plansSub(30000, 600000, func(t *pbt.T, w *model.World) {
				n := numMsg(t, w)
				if t.Chance(1, 2) {
					n = numOfAny(anyPlan(t, w).CC, "7"+digits(t, 1+t.N(14)))
				}
				checkPossible(t, w, n)
				checkPossibleType(t, w, n, pbt.Pick(t.Src, []model.Type{model.TFixed, model.TMobile, model.TFixedOrMobile}))
			}),
			{Name: "texts", Quick: 250000, Thorough: 12000000, Run: func(t *pbt.T) {
				s, r := anyText(t, w0())
				t.Log("IsPossibleNumberFromRegion(%q, %q)", s, r)
				m, err := w0().Parse(s, r, false)
				want := false
				if err == nil {
					x := w0().PossibleReason(m)
					want = x == model.Possible || x == model.LocalOnly
					t.NonTrivial(s + "|" + r)
				}
				if g := pn.IsPossibleNumberFromRegion(s, r); g != want {
					t.Fail("IsPossibleNumberFromRegion(%q, %q) = %v; parsing gives %s, possible=%v", s, r, g, show(m), want)
				}
			}},
		},
	})
}

func numOfAny(cc int, d string) *model.Num {
	n := &model.Num{CC: cc, NLZ: 1}
	for _, c := range d {
		n.NN = n.NN*10 + uint64(c-'0')
	}
	return n
}

func checkPossibleType(t *pbt.T, w *model.World, n *model.Num, typ model.Type) {
	p := msg(t, n)
	want := w.PossibleTypeReason(n, typ)
	if g := pn.IsPossibleNumberForTypeWithReason(p, pn.PhoneNumberType(typ)); g != pn.ValidationResult(want) {
		t.Fail("IsPossibleNumberForTypeWithReason(%s, type %d) = %d; the plan gives %d", show(n), typ, g, want)
	}
	ok := want == model.Possible || want == model.LocalOnly
	if g := pn.IsPossibleNumberForType(p, pn.PhoneNumberType(typ)); g != ok {
		t.Fail("IsPossibleNumberForType(%s, type %d) = %v with result %d", show(n), typ, g, want)
	}
	t.Label("result " + itoa(int(want)))
}

func checkPossible(t *pbt.T, w *model.World, n *model.Num) {
	t.Log("number %s", show(n))
	p := msg(t, n)
	if w.MainPlan(n.CC) != nil {
		t.NonTrivial(show(n))
	}
	want := w.PossibleReason(n)
	t.Label("overall " + itoa(int(want)))
	if g := pn.IsPossibleNumberWithReason(p); g != pn.ValidationResult(want) {
		t.Fail("IsPossibleNumberWithReason(%s) = %d; the plan gives %d", show(n), g, want)
	}
	ok := want == model.Possible || want == model.LocalOnly
	if g := pn.IsPossibleNumber(p); g != ok {
		t.Fail("IsPossibleNumber(%s) = %v with result %d", show(n), g, want)
	}
	checkPossibleType(t, w, n, model.Type(t.N(12)))
	if w == w0() && pn.IsValidNumber(p) && !pn.IsPossibleNumber(p) {
		t.Fail("%s is valid but not possible", show(n))
	}
}
